"""C17: runs in prior-sampling mode: what they deliver, how it is distributed, and whether the likelihood had a say."""
import collections, os, random, shutil, tempfile
import numpy as np
from scipy import stats
from vlib import runs, history, nsref, models as M
from vlib.check import forked

RULE = ("one case = one complete run in prior-sampling mode (or a family of runs that differ in their likelihood only); all delivered points are re-evaluated, and pooled over the "
        "runs of a cell for the distribution; non-trivial if points were delivered")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: delivered points re-evaluated and counted, distribution judged over many runs by their run-to-run scatter, likelihood swapped under the same seed"
NOTE = ("Counts, bounds, evaluations and the composition of the collected samples are exact for every explored run; the distribution is judged at p < 1e-7 per statistic, with the run-to-run "
        "scatter as its own error.")
ASSUMPTIONS = ["at least two live points are requested", "chains of 150 moves forget their uniform starting points for the priors used"]


class Half(M.Base):
    """a prior with a hard edge inside the bounds and a slope"""
    def __init__(self, offset=0.0, like=None):
        self.names, self.bounds = ["a", "b"], [(-2.0, 2.0), (0.0, 3.0)]

    def log_prior(self, p):
        if not self.in_bounds(p) or p["a"] < 0 and p["b"] > 1.5:
            return -np.inf
        return float(0.6 * p["a"])

    def log_likelihood(self, p):
        return float(-p["a"] ** 2 - p["b"])

    def prior(self, n, rng):
        out = np.empty((0, 2))
        while len(out) < n:
            x = rng.uniform([-2, 0], [2, 3], size=(4 * n, 2))
            k = (rng.uniform(size=len(x)) < np.exp(0.6 * (x[:, 0] - 2))) & ~((x[:, 0] < 0) & (x[:, 1] > 1.5))
            out = np.concatenate((out, x[k]))
        return out[:n]


M.Half = Half
CELLS = [("gauss", dict(d=2), {}), ("pow_prior", {}, {}), ("exp_prior", {}, {}), ("Half", {}, {}), ("Disc", {}, dict(nslice=1, nthreads=1)), ("gauss_prior", {}, dict(nslice=1, nthreads=2)),
         ("uneven", {}, {}), ("gauss_prior", dict(d=1), {}),
         # a pool larger than the prior chains: its points are independent of their uniform start only if every one of them is evolved
         ("gauss_prior", dict(d=6, half=8.0), dict(nlive=60, poolsize=600, maxmcmc=60, nthreads=1))]
# cells whose parameters all have the same law: their statistics are averaged over the parameters, and finite chains are granted a deviation
ALLOW = {8: 0.03}


def cases(chk):
    r = random.Random(chk.seed * 334214467 + 17)
    out = []
    for c, (name, mk, kw) in enumerate(CELLS):
        for i in range((48 if c in ALLOW else 60) if chk.thorough else 16 if c in ALLOW else 26):
            k = dict(nthreads=r.choice([1, 2, 3]), nlive=48, maxmcmc=150, poolsize=40, verbose=0)
            k.update(kw)
            out.append(dict(kind="cell", cell=c, model=(name, mk), kw=dict(k, prior_sampling=True), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    mods = [("gauss", dict(d=2)), ("Disc", {}), ("gauss_prior", {}), ("Staircase", {}), ("gauss", dict(d=1)), ("pow_prior", {}), ("Correlated", {}), ("uneven", {})]
    for i in range(100 if chk.thorough else 30):
        n = r.choice([1, 2, 3, 4])
        out.append(dict(kind="count", model=mods[i % len(mods)], kw=dict(nthreads=n, nlive=r.choice([2, 3, max(n, 2), n + 1, 7, 16, 31]), maxmcmc=r.choice([1, 2, 7, 20]), poolsize=r.choice([8, 20]),
                        nslice=[0, 0, 1, n][i % 4], verbose=[0, 3, 1, 2, 0][i % 5], prior_sampling=True), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    for i in range(4 if chk.thorough else 2):
        out.append(dict(kind="count", model=("gauss_prior", {}), kw=dict(nthreads=2, nlive=9, maxmcmc=5, poolsize=30, nhamiltonian=1, verbose=3 * i, prior_sampling=True), policy={}, seed=r.randrange(1, 10 ** 6)))
    for i in range(40 if chk.thorough else 10):
        n = r.choice([1, 2, 3])
        out.append(dict(kind="blind", model=mods[i % 3], kw=dict(nthreads=n, nlive=r.choice([9, 20]), maxmcmc=r.choice([5, 20]), poolsize=r.choice([8, 20]), nslice=i % 2, verbose=3 * (i % 2), prior_sampling=True),
                        policy=r.choice(runs.POLICIES[:2] + [dict(freerun=0.3)]), seed=r.randrange(1, 10 ** 6)))
    for i in range(30 if chk.thorough else 8):
        n = r.choice([1, 2])
        out.append(dict(kind="resumed", model=mods[i % 4], kw=dict(nthreads=n, nlive=14, maxmcmc=4, poolsize=8, verbose=3 * (i % 2), prior_sampling=True), policy={},
                        interrupts=[dict(kind=["group", "crash"][i % 2], sig=r.choice(history.SIGS), ops=r.randrange(2, 25), lines=0)], seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def row(model, p):
    return tuple([float(p[c]) for c in model.names] + [float(p.logL), float(p.logP)])


def arr_rows(model, a):
    cols = list(model.names) + ["logL", "logPrior"]
    return [tuple(float(x[c]) for c in cols) for x in np.asarray(a).ravel()]


def judge(cp, model, samplers, kw, bad, n, complete=True):
    """exact part"""
    ns = list(cp.NS.nested_samples)
    N = kw["nlive"]
    n["points"] += len(ns)
    if len(ns) != N:
        bad.append(("count", "%d points delivered, %d requested" % (len(ns), N)))
    got = arr_rows(model, cp.nested_samples)
    if sorted(got) != sorted(row(model, p) for p in ns) or len(got) != N:
        bad.append(("count", "%d nested samples returned for %d requested points" % (len(got), N)))
    for p in ns:
        if not model.in_bounds(p) or not model.log_prior(p) > -np.inf:
            bad.append(("support", "point %s has log-prior %r" % (row(model, p), model.log_prior(p))))
        if not np.isfinite(p.logL) or p.logL != model.log_likelihood(p):
            bad.append(("likelihood", "point %s has log-likelihood %r, the model says %r" % (row(model, p), p.logL, model.log_likelihood(p))))
        if p.logP != model.log_prior(p):
            bad.append(("prior-value", "point %s has log-prior %r, the model says %r" % (row(model, p), p.logP, model.log_prior(p))))
        if bad:
            break
    pri = cp.prior_samples
    if pri is None or isinstance(pri, dict):
        bad.append(("returned", "prior samples came back as %r" % (pri,)))
        return
    have = collections.Counter(arr_rows(model, pri))
    want = collections.Counter(got)
    for s in samplers:
        if getattr(s, "prior_samples", None) is not None:
            rows = arr_rows(model, s.prior_samples)
            n["chain_rows"] += len(rows)
            want.update(rows)
        elif complete:
            bad.append(("chains", "a sampler has no prior chain of its own"))
    if complete and have != want:
        miss, more = want - have, have - want
        bad.append(("chains", "of %d rows of the prior samples %d are missing and %d too many, e.g. %s" % (sum(want.values()), sum(miss.values()), sum(more.values()), list(miss or more)[:1])))
    elif want - have:
        bad.append(("chains", "%d rows are missing from the prior samples" % sum((want - have).values())))
    for x in list(have)[:400]:
        p = model.point(x[:-2])
        if not model.in_bounds(p) or not model.log_prior(p) > -np.inf or x[-2] != model.log_likelihood(p):
            bad.append(("support", "prior sample %s: log-prior %r, log-likelihood %r" % (x, model.log_prior(p), model.log_likelihood(p))))
            break


def new():
    return dict(points=0, chain_rows=0, swaps=0, resumed=0)


def run_once(case, extra=None):
    folder = tempfile.mkdtemp(prefix="c17-", dir=case["scratch"])
    res, sim, model = runs.simulate(case, folder)
    shutil.rmtree(folder, ignore_errors=True)
    return res, sim, model


def count_case(case):
    n, bad = new(), []
    res, sim, model = run_once(case)
    t = runs.trouble(res)
    if not t:
        judge(res.cp, model, runs.samplers(res.cp), res.kw, bad, n)
    return dict(trouble=t, bad=bad, n=n, trace=sim.trace_hash)


def cell_case(case):
    n, bad = new(), []
    res, sim, model = run_once(case)
    t = runs.trouble(res)
    us = None
    if not t:
        ss = runs.samplers(res.cp)
        judge(res.cp, model, ss, res.kw, bad, n)
        pts = np.array([list(p.values) for p in res.cp.NS.nested_samples])
        ch = np.array([r[:-2] for s in ss if getattr(s, "prior_samples", None) is not None for r in arr_rows(model, s.prior_samples)])
        us = [statistics(model, pts), statistics(model, ch) if len(ch) else None]
    return dict(trouble=t, bad=bad, n=n, trace=sim.trace_hash, us=us)


_REF = {}


def statistics(model, x):
    """mean quantile, spread and tails of every parameter, and the covariance of neighbours, of one run; expectation zero"""
    ref = _REF.get("ref")
    if ref is None:
        ref = _REF["ref"] = np.sort(model.prior(400000, np.random.RandomState(77)), axis=0)
    d = ref.shape[1]
    u = np.column_stack([np.searchsorted(ref[:, j], x[:, j]) / float(len(ref)) for j in range(d)])
    out = []
    for j in range(d):
        v = u[:, j]
        out += [np.mean(v) - .5, np.mean((v - .5) ** 2) - 1 / 12., np.mean(v < .08) - .08, np.mean(v > .92) - .08]
    return out


class Swapped:
    """the same model with another positive likelihood"""
    def __init__(self, model, f):
        self._m, self._f = model, f
        inner = model.log_likelihood
        model.log_likelihood = lambda p: f(inner(p), p)


def blind_case(case):
    n, bad = new(), []
    seen, sims = [], []
    fs = [lambda l, p: l, lambda l, p: 3.0, lambda l, p: -1e4 * abs(l) - 7e5, lambda l, p: 50.0 * float(np.sin(37 * p.values[0]))]
    M_make = runs.make
    for f in fs:
        def make(spec, f=f):
            m = M_make(spec)
            Swapped(m, f)
            return m
        runs.make = make
        try:
            res, sim, model = run_once(case)
        finally:
            runs.make = M_make
        t = runs.trouble(res)
        if t:
            return dict(trouble=t, bad=bad, n=n, trace=0)
        n["swaps"] += 1
        judge(res.cp, model, runs.samplers(res.cp), res.kw, bad, n)
        seen.append(sorted(tuple(p.values) for p in res.cp.NS.nested_samples))
        sims.append(sim.trace_hash)
    for i in range(1, len(fs)):
        if seen[i] != seen[0]:
            k = sum(1 for a in seen[i] if a not in seen[0])
            bad.append(("likelihood-matters", "with the same seeds and schedule, %d of %d points changed when the likelihood was replaced by another positive one (%d)" % (k, len(seen[0]), i)))
            break
    return dict(trouble=None, bad=bad, n=n, trace=tuple(sims))


def resumed_case(case):
    folder = tempfile.mkdtemp(prefix="c17-", dir=case["scratch"])
    n, bad, st = new(), [], None
    for st in history.play(case, folder):
        pass
    t = runs.trouble(st.res)
    if not t:
        n["resumed"] = int(st.index > 0)
        judge(st.res.cp, st.model, runs.samplers(st.res.cp), st.res.kw, bad, n, complete=False)
    shutil.rmtree(folder, ignore_errors=True)
    return dict(trouble=t, bad=bad, n=n, trace=st.sim.trace_hash)


def one(case):
    return globals()[case["kind"] + "_case"](case)


def run(chk):
    import matplotlib.pyplot, cpnest.plot
    cells = collections.defaultdict(list)
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=250), least=0.9):
        chk.case((case["kind"], v["trace"]), nontrivial=v["n"]["points"] > 0, sample=runs.describe(case)[:300])
        chk.count("cases_" + case["kind"])
        if v.get("us"):
            cells[case["cell"]].append(v["us"])
    worst = {}
    for c, us in sorted(cells.items()):
        for w, what in enumerate(("points", "chains of the samplers")):
            a = np.array([u[w] for u in us if u[w] is not None])
            if len(a) < 8:
                continue
            if c in ALLOW:
                a = a.reshape(len(a), -1, 4).mean(1)
            m, s = a.mean(0), a.std(0, ddof=1)
            # the scatter of tail fractions can be small by accident; a run has 48 points
            s = np.maximum(s, 0.008 if c in ALLOW else 0.02)
            t = np.maximum(np.abs(m) - ALLOW.get(c, 0.0), 0) / s * np.sqrt(len(a))
            p = 2 * stats.t.sf(np.abs(t), len(a) - 1)
            chk.count("distribution_statistics", len(t))
            j = int(np.argmin(p))
            worst["%s %s" % (CELLS[c][0] + str(CELLS[c][1]), what)] = "t=%.2f p=%.2g, largest deviation %.4f" % (t[j], p[j], np.max(np.abs(m)))
            if p[j] < 1e-7:
                chk.violation("distribution", "%s of %s%s over %d runs: statistic %d (mean, spread, lower, upper tail of each parameter) is off by %.4f, t=%.1f, p=%.1e" % (
                    what, CELLS[c][0], CELLS[c][1], len(a), j, m[j], t[j], p[j]), cell=CELLS[c])
    chk.extra["distribution"] = worst
    chk.require("points", 2000)
    chk.require("chain_rows", 2000)
    chk.require("swaps", 20)
    chk.require("resumed", 4)
    chk.require("distribution_statistics", 60)
