"""C23: numbered log records are emitted inside and outside log-file contexts and runs, and the files and handler lists are compared with them."""
import logging, os, random, re, shutil, signal, tempfile
import numpy as np
from vlib import runs, models as M
from vlib.check import forked

RULE = ("one case = one history of log-file contexts, or one history of CPNest constructions and runs (completed, failing, interrupted), in which every record carries a number; "
        "distinct = distinct histories; all non-trivial (records above and below the verbosity, inside and outside of the context, are emitted in each)")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: numbered records traced from emission to the log files; handler lists, levels and open descriptors compared before and after"
NOTE = ("The files are searched for the numbers of the records, so their format is free. Records of sampler processes are covered by real multi-process runs, whose likelihood "
        "logs through a logger of the package.")
ASSUMPTIONS = ["only regular files are counted as open files"]
LV = [logging.CRITICAL, logging.WARNING, logging.INFO, logging.DEBUG]
TOK = re.compile(r"<<([\w-]+)>>")
NAMES = ["cpnest", "cpnest.cpnest", "cpnest.cpnest.CPNest", "cpnest.sampler.Sampler", "cpnest.NestedSampling", "cpnest.user.model"]
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


def cases(chk):
    r = random.Random(chk.seed * 611953 + 23)
    out = []
    for i in range(200 if chk.thorough else 60):
        out.append(dict(kind="ctx", seed=r.randrange(1, 2 ** 31), n=60))
    for i in range(60 if chk.thorough else 24):
        out.append(dict(kind="sim", seed=r.randrange(1, 2 ** 31), verbose=i % 4, fail=["", "likelihood", "construct", "signal", "", "proposal"][(i // 4 + i) % 6]))
    for i in range(12 if chk.thorough else 6):
        out.append(dict(kind="real", seed=r.randrange(1, 2 ** 31), verbose=[0, 2, 1, 3][i % 4], fail=["", "", "likelihood"][i % 3]))
    return [dict(c, scratch=chk.scratch) for c in out]


def state():
    """everything about logging that a run could leave changed"""
    out = {}
    logs = [logging.getLogger()] + [l for n, l in logging.root.manager.loggerDict.items() if isinstance(l, logging.Logger) and n.split(".")[0] == "cpnest"]
    for l in logs:
        if l.handlers or l.level or l.disabled or not l.propagate or l.filters:
            out[l.name] = ([(id(h), h.level) for h in l.handlers], l.level, l.disabled, l.propagate, len(l.filters))
    out["disable"] = logging.root.manager.disable
    return out


def open_files(under):
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if p.startswith(under):
            out.append(p)
    return sorted(out)


def tokens(path):
    if not os.path.exists(path):
        return []
    with open(path, errors="replace") as f:
        return TOK.findall(f.read())


def compare(flag, what, path, expected):
    got = tokens(path)
    from collections import Counter
    g, e = Counter(got), Counter(expected)
    for t in (e - g):
        flag("lost", "%s: record %s is not in the log file (%d of %d there)" % (what, t, len(got), len(expected))); break
    extra = g - e
    for t in extra:
        flag("duplicated" if t in e else "foreign", "%s: record %s is %d times in the log file, expected %d" % (what, t, g[t], e[t])); break
    if not extra and not (e - g) and got != list(expected):
        flag("order", "%s: records in a different order" % what)
    return len(expected)


class Boom(Exception):
    pass


def ctx_case(case, folder, flag, n):
    """random well-nested histories of LogFile contexts"""
    from cpnest.utils import LogFile
    r = random.Random(case["seed"])
    pool = []
    for i in range(4):
        v = r.randrange(4)
        name = r.choice(["cpnest", "cpnest", "cpnest.cpnest", "other%d" % i])
        path = os.path.join(folder, "log %d.log" % i)
        kw = {} if name == "cpnest" and r.random() < .5 else dict(loggername=name)
        pool.append(dict(lf=LogFile(path, v, **kw) if r.random() < .5 else LogFile(path, verbose=v, **kw), v=v, name=name, path=path, exp=[], up=False))
    count = [0]

    def emit():
        name = r.choice(NAMES + ["other0", "other1.sub", "elsewhere"])
        lvl = r.choice(LEVELS)
        lg = logging.getLogger(name)
        tok = "%d" % count[0]
        count[0] += 1
        lg.log(lvl, "message <<%s>> %s", tok, "x" * r.randrange(3))
        n["records"] += 1
        for p in pool:
            if p["up"] and (name == p["name"] or name.startswith(p["name"] + ".")) and lvl >= LV[p["v"]] and lg.isEnabledFor(lvl):
                p["exp"].append(tok)

    def block(depth):
        for _ in range(r.randrange(1, 6)):
            emit()
            free = [p for p in pool if not p["up"]]
            if depth < 3 and free and r.random() < .6:
                p = r.choice(free)
                before, fb = state(), open_files(folder)
                boom = r.random() < .3
                try:
                    with p["lf"]:
                        p["up"] = True
                        block(depth + 1)
                        if boom:
                            raise Boom()
                except Boom:
                    if not boom:
                        raise
                else:
                    if boom:
                        flag("swallowed", "an exception raised inside a log-file context did not leave it")
                p["up"] = False
                n["contexts"] += 1
                if state() != before:
                    flag("handlers", "after a log-file context%s the logging state is %s, it was %s" % (" left by an exception" if boom else "", state(), before))
                if open_files(folder) != fb:
                    flag("open-files", "after a log-file context the open files are %s, they were %s" % (open_files(folder), fb))
        emit()
    for _ in range(case["n"] // 12):
        block(0)
    for p in pool:
        n["expected_records"] += compare(flag, "context of %s at verbosity %d" % (p["name"], p["v"]), p["path"], p["exp"])


def chatty(base, emit, fail_at=None):
    class Chatty(base):
        calls = 0

        def log_likelihood(self, p):
            self.calls += 1
            emit()
            if fail_at and self.calls >= fail_at:
                raise Boom("likelihood failed")
            return super().log_likelihood(p)
    return Chatty


def sim_case(case, folder, flag, n):
    """two or three runs in one process, one after the other or constructed together, with records of all levels from the model"""
    from vlib import sim as S
    r = random.Random(case["seed"])
    now = dict(run=None, up=False)
    count = [0]
    todo = []

    def emit():
        name, lvl = r.choice(NAMES), r.choice(LEVELS)
        lg = logging.getLogger(name)
        tok = "%d" % count[0]
        count[0] += 1
        lg.log(lvl, "message <<%s>>", tok)
        n["records"] += 1
        w = now["run"]
        if w is not None and lvl >= LV[w["v"]] and lg.isEnabledFor(lvl):
            w["exp"].append(tok)

    start, f0 = state(), open_files(folder)
    ncases = 3
    specs = []
    for k in range(ncases):
        fail = case["fail"] if k == 1 else ""
        specs.append(dict(v=(case["verbose"] + k * 2) % 4, fail=fail, dir=os.path.join(folder, "out %d" % k), exp=[]))
    together = r.random() < .5
    built = []

    def build(w):
        sim = S.Sim(case["seed"] + len(built), S.Policy(freerun=.05), budget=200000)
        model = chatty(M.Disc, emit, fail_at=r.choice([3, 60, 150]) if w["fail"] == "likelihood" else None)()
        nth = r.choice([1, 2])
        kw = dict(nlive=20, nthreads=nth, maxmcmc=8, poolsize=12, verbose=w["v"], output=w["dir"], seed=5, resume=w["fail"] == "signal" or r.random() < .3)
        if w["fail"] == "construct":
            def bad():
                emit()
                raise Boom("no proposal")
            kw["proposals"] = dict(mhs=bad, hmc=bad, sli=bad)
        else:
            from cpnest.proposal import DefaultProposalCycle

            class Noisy(DefaultProposalCycle):
                def __init__(self):
                    emit()
                    super().__init__()

                def get_sample(self, old, **k):
                    if w["fail"] == "proposal" and model.calls > 40:
                        raise Boom("proposal failed")
                    return super().get_sample(old, **k)
            kw["proposals"] = dict(mhs=Noisy, hmc=Noisy, sli=Noisy)
        before = state()
        emit()
        now["run"] = w
        sim.__enter__()
        try:
            from cpnest import CPNest
            try:
                w["cp"] = CPNest(model, **kw)
            except Boom:
                w["cp"] = None
                if w["fail"] != "construct":
                    raise
            else:
                if w["fail"] == "construct":
                    raise RuntimeError("expected to fail")
        finally:
            now["run"] = None
        emit()
        if state() != before:
            flag("handlers", "after the construction%s the logging state is %s, it was %s" % (" failed" if w["cp"] is None else "", state(), before))
        if open_files(folder) != f0:
            flag("open-files", "after the construction%s the open files are %s" % (" failed" if w["cp"] is None else "", open_files(folder)))
        w["sim"], w["model"] = sim, model
        built.append(w)
        n["constructions"] += 1

    def go(w):
        sim = w["sim"]
        if w["cp"] is None:
            sim.__exit__()
            return
        before = state()
        how = "completed"
        if w["fail"] == "signal":
            hits = [r.randrange(60, 150)]

            def sig(sim_, conn, obj):
                if sim_.current.aid == 0:
                    hits[0] -= 1
                    if hits[0] == 0:
                        signal.raise_signal(signal.SIGTERM)
            sim.hooks["before_send"].append(sig)
        now["run"] = w
        try:
            w["cp"].run()
        except SystemExit:
            how = "interrupted"
        except S.Deadlock as e:
            raise RuntimeError("deadlock: %s" % e)
        except Exception as e:
            how = "failed"
            if not w["fail"]:
                raise
        if how == "interrupted" or how == "completed":
            sim.drain()
        now["run"] = None
        sim.__exit__()
        n["runs_" + how] += 1
        emit()
        if state() != before:
            flag("handlers", "after a run that %s the logging state is %s, it was %s" % (how, state(), before))
        if open_files(folder) != f0:
            flag("open-files", "after a run that %s the open files are %s" % (how, open_files(folder)))

    emit()
    for w in specs:
        build(w)
        emit()
        go(w)
        emit()
    if state() != start:
        flag("handlers", "after %d runs the logging state is %s, it was %s" % (ncases, state(), start))
    for k, w in enumerate(specs):
        n["expected_records"] += compare(flag, "run %d (%s) at verbosity %d" % (k, w["fail"] or "plain", w["v"]), os.path.join(w["dir"], "cpnest.log"), w["exp"])


def real_case(case, folder, flag, n):
    """a run with real sampler processes; each process numbers its own records"""
    import cpnest
    r = random.Random(case["seed"])
    diary = os.path.join(folder, "diary")
    os.makedirs(diary)
    main = os.getpid()
    cnt = {}

    def emit():
        pid = os.getpid()
        k = cnt[pid] = cnt.get(pid, 0) + 1
        if k > 400:
            return
        name, lvl = NAMES[k % len(NAMES)], LEVELS[(k * 7 + k // 5) % 5]
        tok = "%d-%d-%d" % (pid, k, lvl)
        with open(os.path.join(diary, str(pid)), "a") as f:
            f.write(tok + "\n")
        logging.getLogger(name).log(lvl, "message <<%s>>", tok)
    out = os.path.join(folder, "out")
    model = chatty(M.Disc, emit, fail_at=120 if case["fail"] else None)()
    before = state()
    try:
        cp = cpnest.CPNest(model, nlive=20, nthreads=2, maxmcmc=10, poolsize=12, verbose=case["verbose"], output=out, seed=3)
        cp.run()
        if case["fail"]:
            flag("no-error", "the run with a failing likelihood ended without an error")
    except Exception:
        if not case["fail"]:
            raise
    emit()
    if state() != before:
        flag("handlers", "after a real run the logging state is %s, it was %s" % (state(), before))
    if open_files(out):
        flag("open-files", "after a real run the open files are %s" % open_files(out))
    expected = []
    for f in os.listdir(diary):
        if f != str(main):
            with open(os.path.join(diary, f)) as g:
                ts = g.read().split()
            # a sampler that was ended from outside may not have got to write its last record
            expected.append([t for t in ts if int(t.split("-")[2]) >= LV[case["verbose"]]])
            n["sampler_processes"] += 1
    got = tokens(os.path.join(out, "cpnest.log"))
    from collections import Counter
    g = Counter(got)
    allowed = set(t for e in expected for t in e)
    for t, c in g.items():
        if c > 1:
            flag("duplicated", "record %s of a sampler process is %d times in the log file" % (t, c)); break
        if t not in allowed:
            flag("foreign", "record %s is in the log file of a run at verbosity %d" % (t, case["verbose"])); break
    for e in expected:
        miss = [t for t in (e[:-1] if case["fail"] else e) if t not in g]
        if miss:
            flag("lost", "records %s of a sampler process are missing in the log file (verbosity %d)" % (miss[:3], case["verbose"]))
        n["expected_records"] += len(e)
    n["real_runs"] += 1


def run_case(case):
    folder = tempfile.mkdtemp(prefix="c23-", dir=case["scratch"])
    bad = []
    from collections import Counter
    n = Counter()

    def flag(m, msg):
        if len(bad) < 6:
            bad.append((m, msg))
    try:
        globals()[case["kind"] + "_case"](case, folder, flag, n)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return dict(bad=bad, n=dict(n))


def run(chk):
    for o in forked(cases(chk), run_case, timeout=200):
        c = {k: v for k, v in o.case.items() if k != "scratch"}
        if o.status == "error":
            chk.violation("failed", "%s: %s" % (c, o.value[-1200:]), case=c)
            continue
        if o.status != "ok":
            chk.inconclusive("%s: %s %s" % (c, o.status, o.value))
            continue
        for mech, msg in o.value["bad"]:
            chk.violation(mech, "%s: %s" % (c, msg), case=c)
        for k, v in o.value["n"].items():
            chk.count(k, v)
        chk.count("histories_" + c["kind"])
        chk.case(str(c), sample=str(c))
    chk.require("expected_records", 5000)
    chk.require("contexts", 200)
    chk.require("runs_completed", 20)
    chk.require("runs_failed", 2)
    chk.require("runs_interrupted", 1)
    chk.require("real_runs", 2)
