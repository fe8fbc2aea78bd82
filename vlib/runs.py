"""Workloads shared by the checks on whole runs: configurations, one monitored simulated run, and what was observed in it."""
import os, pickle, random, re, shutil, tempfile
import numpy as np
from . import sim as S
from . import models as M


class Observed:
    """picklable summary of one simulated run"""
    pass


def replies(sim):
    """(pipe, (acceptance, sub_acceptance, jumps, point)) in the order the main process received them"""
    out = []
    for e in sim.events:
        if e[0] == "recv" and e[1] == 0 and e[3] == 0:
            out.append((e[2], pickle.loads(e[4])))
    return out


def make(spec):
    """model from a spec (name, kwargs)"""
    name, kw = spec
    return getattr(M, name)(**kw)


def simulate(case, folder, hooks=None, before_run=None, keep=False):
    """case: dict(model=(name, kw), kw=CPNest kwargs, policy=dict, seed=int). Returns (Result, sim, model)"""
    model = make(case["model"])
    np.random.seed(case["seed"] % (2 ** 32))
    random.seed(case["seed"])
    sim = S.Sim(case["seed"], S.Policy(**case.get("policy", {})), budget=case.get("budget", 60000))
    for k, v in (hooks or {}).items():
        sim.hooks[k].append(v)
    kw = dict(maxmcmc=50, poolsize=50, nlive=50, nthreads=1, verbose=0, seed=case["seed"] % 100000 + 1)
    kw.update(case["kw"])
    kw.setdefault("output", folder)
    with sim:
        res = S.run_cpnest(model, kw, sim, before_run)
    res.kw = kw
    return res, sim, model


def samplers(cp):
    """the sampler objects of a simulated run, in the order of the process pool"""
    out = [getattr(getattr(p, "target", None), "__self__", None) for p in cp.process_pool]
    if any(o is None for o in out):
        import gc
        from cpnest.sampler import Sampler
        out = sorted((o for o in gc.get_objects() if isinstance(o, Sampler) and o.manager is cp.manager), key=lambda o: o.thread_id)
    return out


def describe(case):
    m = case.get("model", ("", ""))
    return "model=%s%s kw=%s policy=%s seed=%d" % (m[0], m[1], case["kw"], case.get("policy", {}), case["seed"])


POLICIES = [dict(), dict(freerun=0.1), dict(freerun=0.3, preempt=0.05), dict(skew=0.6, freerun=0.05),
            dict(slow=0, freerun=0.05), dict(preempt=0.2)]


def trouble(res):
    """None, or what went wrong with a run that should have completed normally"""
    if res.status == "ok":
        if res.leftover:
            return "samplers still running or waiting after the run: %s" % (res.leftover,)
        bad = [c for c in res.exitcodes if c != 0]
        if bad:
            return "sampler exit codes %s\n%s" % (res.exitcodes, "\n".join(t for t in res.worker_errors))
        return None
    return "%s: %s" % (res.status, res.error or res.code)


def inside(text):
    """does a traceback end in the package, not in what the check handed to it or in the check itself?"""
    files = re.findall(r'File "([^"]+)"', text)
    own = [i for i, f in enumerate(files) if re.search(r"/vlib/|/checks/", f)]
    pkg = [i for i, f in enumerate(files) if re.search(r"/ov-[^/]*/cpnest/", f)]
    return bool(pkg) and max(pkg) > max(own, default=-1)


def conclude(chk, outcomes, least=0.8, on_value=None):
    """common part of the checks on simulated runs: yields (case, value) of the runs that can be judged.
    A run that fails or in which nobody can go on is a violation; one that only takes very long is not judged."""
    total = judged = 0
    for o in outcomes:
        total += 1
        if o.status == "timeout":
            chk.count("runs_not_judged_too_long")
            continue
        if o.status == "error" and inside(o.value):
            chk.violation("run-failed", describe(o.case) + ": " + o.value[-1500:], case=o.case)
            judged += 1
            continue
        if o.status != "ok":
            chk.inconclusive("%s: %s %s" % (describe(o.case), o.status, str(o.value)[-1200:]))
            continue
        v = o.value
        if v["trouble"]:
            if v["trouble"].startswith("budget"):
                chk.count("runs_not_judged_too_long")
                continue
            chk.violation("run-failed", describe(o.case) + ": " + v["trouble"][-1500:], case=o.case)
            judged += 1
            continue
        judged += 1
        for mech, msg in v["bad"][:20]:
            chk.violation(mech, describe(o.case) + ": " + msg, case=o.case)
        for k, x in v["n"].items():
            chk.count(k, x)
        chk.count("runs")
        yield o.case, v
    if judged < least * total:
        chk.inconclusive("only %d of %d runs could be judged" % (judged, total))
