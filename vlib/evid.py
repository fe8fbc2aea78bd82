"""Complete simulated runs on models with known evidence, information and posterior; shared by C01 and C02."""
import random, shutil, tempfile
import numpy as np
from . import runs, history
from . import models as M

CELLS = [("gauss", dict(d=1, half=8.0), {}), ("gauss", dict(d=2), {}), ("gauss", dict(d=4), {}), ("gauss", dict(d=2, offset=1e5), dict(nslice=1)), ("gauss_prior", {}, {}), ("gauss_prior", dict(d=3, sp=1.5, offset=-7e3), {}),
         ("exp_prior", {}, {}), ("pow_prior", {}, {}), ("uneven", {}, {}), ("Correlated", {}, {}), ("Bimodal", dict(w=0.3), {}), ("Disc", {}, {}), ("gauss_prior", dict(d=2), dict(nhamiltonian=1)),
         ("gauss_prior", dict(d=1), dict(nhamiltonian=1)), ("exp_prior", {}, dict(nslice=99)), ("gauss", dict(d=2, sigma=0.2), dict(nslice=99))]


def case_of(c, i, r, resumed=False):
    name, mk, kw = CELLS[c]
    n = [1, 2, 3, 4][i % 4]
    k = dict(nthreads=n, nlive=[100, 120, 160][i % 3], maxmcmc=300, poolsize=100, verbose=0)
    k.update(kw)
    if k.get("nslice"):
        k["nslice"] = min(k["nslice"], n)
        k["maxmcmc"] = 60
    if k.get("nhamiltonian"):
        k.update(nthreads=max(2, n) if i % 3 else 1)
        k["nhamiltonian"] = 1
    case = dict(cell=c, model=(name, mk), kw=k, policy=runs.POLICIES[(i + c) % len(runs.POLICIES)], seed=r.randrange(1, 10 ** 6), budget=400000)
    if resumed:
        case["interrupts"] = [dict(kind=r.choice(["group", "group", "crash"]), sig=r.choice(history.SIGS), ops=r.randrange(60, 1200), lines=0) for _ in range(r.choice([1, 2]))]
    return case


def shown(case):
    return {k: v for k, v in case.items() if k != "scratch"}


_REF = {}


def reference(model, which="posterior"):
    """sorted exact draws of every parameter, and of the log-likelihood, from the posterior or prior"""
    if which not in _REF:
        x = getattr(model, which)(300000, np.random.RandomState(4))
        _REF[which] = np.sort(x, axis=0), np.sort(model.vlogl(x))
    return _REF[which]


STATS = ["mean", "spread", "lower", "upper"]


def statistics(model, rows, which="posterior"):
    """how the ranks of the rows among exact draws deviate from uniform ones: {column: [mean, spread, lower and upper tenth]}"""
    ref, refl = reference(model, which)
    out = {}
    for j, n in list(enumerate(model.names)) + [(-1, "logL")]:
        col = np.asarray(rows[n], float)
        q = refl if j < 0 else ref[:, j]
        u = np.searchsorted(q, col) / float(len(q))
        out[n] = [float(np.mean(u) - .5), float(np.mean((u - .5) ** 2) - 1 / 12.), float(np.mean(u < .1) - .1), float(np.mean(u > .9) - .1)]
    return out


def no_plots(cp):
    cp.plot = lambda *a, **k: None


def real(case, folder):
    """a run of real processes, left to the scheduler of the system"""
    import cpnest, traceback
    model = runs.make(case["model"])
    kw = dict(case["kw"], seed=case["seed"] % 100000 + 1, output=folder)
    try:
        cp = cpnest.CPNest(model, **kw)
        no_plots(cp)
        cp.run()
    except SystemExit as e:
        return model, None, "run() exits with %r" % (e.code,)
    except Exception:
        return model, None, traceback.format_exc()
    return model, cp, None


def one(case):
    folder = tempfile.mkdtemp(prefix="evid-", dir=case["scratch"])
    out = dict(bad=[], n=dict(resumed=0), trace=0)
    try:
        if case.get("interrupts"):
            st = None
            for st in history.play(case, folder):
                pass
            res, sim, model = st.res, st.sim, st.model
            out["n"]["resumed"] = int(st.index > 0)
        elif case.get("real"):
            model, cp, out["trouble"] = real(case, folder)
            if out["trouble"]:
                return out
            out["n"]["real_processes"] = 1
            out["trace"] = float(cp.NS.logZ)
        else:
            res, sim, model = runs.simulate(case, folder, before_run=no_plots)
        if not case.get("real"):
            out["trouble"] = runs.trouble(res)
            if out["trouble"]:
                return out
            cp = res.cp
            out["trace"] = sim.trace_hash
        out["nlive"], out["steps"] = case["kw"]["nlive"], len(cp.NS.nested_samples)
        pri = getattr(cp, "prior_samples", None)
        if case["kw"].get("prior_sampling") or case["kw"].get("verbose", 0) >= 3:
            out["prior"], out["nprior"] = statistics(model, pri, "prior"), len(pri)
        if not case["kw"].get("prior_sampling"):
            out["logZ"], out["info"] = float(cp.NS.logZ), float(cp.NS.state.info)
            out["true"] = (float(model.logZ), float(model.H))
            nested = set(map(tuple, cp.nested_samples.tolist()))
            new = [row for row in map(tuple, cp.posterior_samples.tolist()) if row not in nested]
            if new:
                out["bad"].append(("not-recorded", "%d of %d posterior samples are not samples that the run recorded, e.g. %s" % (len(new), len(cp.posterior_samples), new[0])))
            if cp.posterior_samples.dtype.names != cp.nested_samples.dtype.names:
                out["bad"].append(("columns", "posterior samples have columns %s, nested samples %s" % (cp.posterior_samples.dtype.names, cp.nested_samples.dtype.names)))
            out["stats"], out["npost"] = statistics(model, cp.posterior_samples), len(cp.posterior_samples)
        return out
    finally:
        shutil.rmtree(folder, ignore_errors=True)
