"""C06: every recorded sample re-evaluated with the user's model; bounds; what crosses the pipes and what sits in the ensembles."""
import os, random, tempfile, shutil
import numpy as np
from array import array
from vlib import runs, nsref
from vlib.check import forked
from cpnest.parameter import LivePoint

RULE = ("one case = one complete run (simulated, or with real processes and all output) whose samples are all re-evaluated; non-trivial if the model has excluded or "
        "zero-likelihood regions, a non-flat prior, or several kinds of samplers")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: re-evaluation oracle (the user's own model) on every sample received, recorded, returned and written"
NOTE = ("Every sample of the explored runs is re-evaluated bit for bit. Models, sampler mixes and schedules are sampled by seed.")
ASSUMPTIONS = ["the user's likelihood and prior are deterministic functions of the parameter values"]


def cases(chk):
    r = random.Random(chk.seed * 86028121 + 6)
    out = []
    mods = [("HoleL", {}), ("Disc", {}), ("uneven", {}), ("pow_prior", dict(poffset=900.0)), ("NanL", {}), ("exp_prior", dict(offset=1e5)), ("gauss_prior", dict(poffset=-2000.0)), ("Bimodal", {}),
            ("Correlated", {}), ("Staircase", {}), ("gauss", dict(d=1)), ("gauss", dict(d=5)), ("gauss_prior", {}), ("exp_prior", dict(poffset=-1e6))]
    for i in range(112 if chk.thorough else 28):
        n = r.choice([1, 2, 3, 4])
        m = mods[i % len(mods)]
        out.append(dict(model=m, kw=dict(nthreads=n, nlive=20 if m[0] == "uneven" else r.choice([n + 3, 20, 40]), maxmcmc=r.choice([8, 20, 40]), poolsize=r.choice([12, 30]),
                        nslice=[0, n, 1][i % 3], verbose=r.choice([0, 0, 3]), prior_sampling=i % 8 == 7), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    # many parameters, the prior cut off by the bounds
    for i in range(12 if chk.thorough else 4):
        n = 1 + i % 2
        out.append(dict(model=[("gauss", dict(d=10, half=0.7)), ("gauss_prior", dict(d=12, half=1.0))][i % 2], kw=dict(nthreads=n, nlive=[20, 30][i // 2 % 2], maxmcmc=20, poolsize=30, nslice=[0, 0, 0, n][i % 4]),
                        policy=r.choice(runs.POLICIES[:3]), seed=r.randrange(1, 10 ** 6)))
    for i in range(10 if chk.thorough else 3):
        out.append(dict(model=[("gauss_prior", {}), ("gauss", dict(d=2)), ("gauss", dict(d=3))][i % 3], kw=dict(nthreads=2, nlive=20, maxmcmc=10, poolsize=30, nhamiltonian=1 + i % 2, verbose=3 * (i % 2)),
                        policy=dict(freerun=0.1), seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def problem(model, values, logl, logp):
    """None, or what is wrong with this sample"""
    q = LivePoint(list(model.names), d=array("d", [float(v) for v in values]))
    for v, (a, b) in zip(q.values, model.bounds):
        if not a < v < b:
            return "out-of-bounds", "%s outside %s" % (list(q.values), model.bounds)
    p = model.log_prior(q)
    if not (np.isfinite(logp) and np.isfinite(p)):
        return "prior-not-finite", "log-prior %r (the model says %r) at %s" % (logp, p, list(q.values))
    if float(p) != float(logp):
        return "wrong-prior", "log-prior %r, the model says %r at %s" % (logp, p, list(q.values))
    l = model.log_likelihood(q)
    if float(l) != float(logl) and not (l != l and logl != logl):
        return "wrong-likelihood", "logL %r, the model says %r at %s" % (logl, l, list(q.values))
    return None


def one(case):
    folder = tempfile.mkdtemp(prefix="c06-", dir=case["scratch"])
    res, sim, model = runs.simulate(case, folder)
    out = dict(trouble=runs.trouble(res), bad=[], n={})
    if res.status == "ok":
        bad = out["bad"]
        seen = dict(received=0, nested=0, posterior=0, prior=0, mcmc=0, held=0)
        kinds = {}

        def judge(kind, values, logl, logp, must=True):
            seen[kind] += 1
            b = problem(model, values, logl, logp)
            if b and (kind, b[0]) not in kinds:
                kinds[kind, b[0]] = 1
                bad.append(("%s-%s" % (b[0], kind), "%s sample %d: %s" % (kind, seen[kind], b[1])))

        for _, t in runs.replies(sim):
            judge("received", t[3].values, t[3].logL, t[3].logP)
        for p in res.cp.NS.nested_samples:
            judge("nested", p.values, p.logL, p.logP)
        for s in runs.samplers(res.cp):
            for p in list(s.samples) + list(s.evolution_points):
                judge("held", p.values, p.logL, p.logP)

        def rows(kind, arr):
            if arr is None or isinstance(arr, dict):
                return
            for r in np.atleast_1d(arr):
                judge(kind, [r[n] for n in model.names], r["logL"], r["logPrior"])

        rows("nested", res.cp.nested_samples)
        rows("posterior", res.cp.posterior_samples)
        rows("prior", res.cp.prior_samples)
        rows("mcmc", res.cp.mcmc_samples)
        out["n"] = dict(seen, runs_with_all_output=int(case["kw"].get("verbose", 0) == 3))
        out["trace"] = sim.trace_hash
    shutil.rmtree(folder, ignore_errors=True)
    return out


def run(chk):
    special = {"HoleL", "Disc", "pow_prior", "NanL", "exp_prior", "gauss_prior"}
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=400)):
        kinds = bool(case["kw"].get("nslice")) + bool(case["kw"].get("nhamiltonian"))
        chk.case((runs.describe(case), v.get("trace")), case["model"][0] in special or kinds, sample=dict(case=runs.describe(case), observed=v["n"]))
    for k, least in dict(received=2000, nested=2000, posterior=200, prior=100, mcmc=20, held=2000).items():
        chk.require(k, least)
