"""C03: populations drawn exactly from the constrained prior are moved by the real samplers and compared with fresh ones."""
import collections, math, random
import numpy as np
from vlib import runs, drive, nsref, models as M
from vlib.check import forked
from checks import c17                      # the model with a hard-edged prior

RULE = ("one case = one kernel (sampler and proposal), model, threshold and number of moves, with several independent ensembles and thousands of exactly drawn starting points; "
        "or one sampler driven over thresholds at and between plateaus; non-trivial if a tenth of the points moved")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: input and output populations of real samplers compared by paired statistics at 6 sigma; every output judged against its threshold"
NOTE = ("The starting populations are exact draws, so that a kernel that leaves the constrained prior invariant must return the same distribution for any ensemble and any number of moves. "
        "Biases below about one part in a hundred of a quantile are not resolved. Hamiltonian moves are only judged for threshold, bounds and prior support.")
ASSUMPTIONS = ["the number of moves is fixed by the sampler's attributes maxmcmc and Nmcmc", "ensembles are drawn independently of the points that are moved, or consist of the other points"]

MODELS = [("gauss", dict(d=1)), ("gauss", dict(d=2)), ("gauss", dict(d=5)), ("Disc", {}), ("pow_prior", {}), ("exp_prior", {}), ("gauss_prior", {}), ("Bimodal", {}), ("uneven", {}),
          ("Correlated", {}), ("Half", {}), ("gauss_prior", dict(d=4, half=3.0)), ("gauss_prior", dict(d=1))]
KERNELS = ["walk", "stretch", "de", "eigen", "cycle", "pair", "sdiff", "sgauss", "scorr", "scycle"]
JOINT = ["walk", "stretch", "de", "sdiff"]
BALANCE = ["walk", "stretch", "de", "eigen", "cycle", "pair"]
SLICE = ["sdiff", "sgauss", "scorr", "scycle"]
# one slice per move, from lengths far too small to far too large, hardly any or plenty of steps out; none of the priors is flat
SLICE1 = [("gauss_prior", dict(d=1)), ("gauss_prior", dict(d=2)), ("pow_prior", {}), ("exp_prior", {}), ("gauss_prior", dict(d=1, half=2.0)), ("Half", {}), ("gauss", dict(d=1)), ("uneven", {})]


def proposal_of(name):
    from cpnest import proposal as P
    return dict(walk=P.EnsembleWalk, stretch=P.EnsembleStretch, de=P.DifferentialEvolution, eigen=P.EnsembleEigenVector, cycle=P.DefaultProposalCycle,
                pair=lambda: P.ProposalCycle([P.EnsembleStretch(), P.EnsembleWalk()], [3.0, 1.0], cyclelength=7), sdiff=P.EnsembleSliceDifferential, sgauss=P.EnsembleSliceGaussian,
                scorr=P.EnsembleSliceCorrelatedGaussian, scycle=P.EnsembleSliceProposalCycle)[name]()


def cases(chk):
    r = random.Random(chk.seed * 373587883 + 3)
    out = []
    for k, kern in enumerate(KERNELS):
        sl = kern.startswith("s") and kern != "stretch"
        for m, mod in enumerate(MODELS):
            for rep in range(5 if chk.thorough else 1):
                out.append(dict(kind="fixed", kernel=kern, model=mod, q=[0.0, 0.5, 0.9, 0.98][(k + m + rep) % 4], K=r.choice([1, 3, 10] if sl else [1, 3, 10, 30]), n=(1 + 2 * chk.thorough) * (6500 if sl else 12000),
                                pool=r.choice([8, 20, 50]), ensembles=4, kw={}, seed=r.randrange(1, 10 ** 6)))
    for i in range(96 if chk.thorough else 32):
        out.append(dict(kind="fixed", kernel=SLICE[(i + i // 8) % 4], model=SLICE1[i % 8], q=[0.0, 0.0, 0.6][(i // 4) % 3], K=400, Nmcmc=[0, 0, 2][i % 3], out=[3, 60, 10, 2][(i + i // 4) % 4],
                        mu=[0.02, 0.3, 1.0, 4.0][(i // 2 + i // 16) % 4], n=(1 + 2 * chk.thorough) * 16000, pool=12, ensembles=4, kw={}, seed=r.randrange(1, 10 ** 6)))
    for i in range(48 if chk.thorough else 18):
        out.append(dict(kind="balance", kernel=BALANCE[i % 6], d=[1, 2, 3][(i + i // 6) % 3], width=[0.5, 2.0, 0.1][(i // 2) % 3], pool=[4, 6, 9, 20][(i + i // 4) % 4], K=1,
                        n=(1 + 2 * chk.thorough) * 100000, kw={}, model=("gumbel", {}), seed=r.randrange(1, 10 ** 6)))
    for i in range(60 if chk.thorough else 24):
        out.append(dict(kind="joint", kernel=JOINT[i % len(JOINT)], model=r.choice(MODELS), q=r.choice([0.0, 0.5, 0.9]), K=r.choice([1, 3, 8]), n=12000, pool=r.choice([5, 8, 20]), kw={}, seed=r.randrange(1, 10 ** 6)))
    mods = [("Staircase", {}), ("gauss", dict(d=2)), ("HoleL", dict(cut=0.4)), ("Half", {}), ("Disc", {}), ("steps", {})]
    for i in range(60 if chk.thorough else 24):
        out.append(dict(kind="threshold", kernel=(["hmc"] + KERNELS)[i % 11], model=mods[i % len(mods)] if i % 11 else [("gauss_prior", {}), ("gauss_prior", dict(d=1)), ("exp_prior", {})][i % 3],
                        K=r.choice([1, 4, 20]), n=1500 if i % 11 else 120, pool=20 if i % 11 else 40, kw={}, seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


# ---------------------------------------------------------------- exact populations
_POP = {}


def population(model, q, n, seed):
    """(points of the prior restricted to logL > threshold, threshold) with the threshold at quantile q of the prior"""
    rng = np.random.RandomState(seed)
    pilot = model.prior(40000, rng)
    thr = -np.inf if q == 0 else float(np.quantile(model.vlogl(pilot), q))
    got, have = [], 0
    while have < n:
        x = model.prior(int(min(400000, 1.3 * (n - have) / (1 - q) + 100)), rng)
        lo, hi = np.array(model.bounds, float).T
        x = x[((x > lo) & (x < hi)).all(1)]
        l = model.vlogl(x)
        x = x[l > thr]
        got.append(x)
        have += len(x)
    x = np.concatenate(got)[:n]
    return x, thr


def points(model, rows):
    out = []
    for row in rows:
        p = model.point(row)
        p.logP, p.logL = model.log_prior(p), model.log_likelihood(p)
        out.append(p)
    return out


def features(x, l, lp, ref, refl, refp):
    """bounded statistics of every point: quantiles of the parameters, of the log-likelihood and of the log-prior, squares, and neighbours"""
    cols, names, spread = [], [], 0.0
    for j in range(x.shape[1]):
        u = np.searchsorted(ref[:, j], x[:, j]) / float(len(ref)) - .5
        spread = spread + u * u
        for name, c in (("x%d" % j, u), ("x%d^2" % j, u * u), ("x%d tails" % j, (np.abs(u) > .45) * 1.0)):
            cols.append(c)
            names.append(name)
        if j:
            cols.append(u * v)
            names.append("x%d x%d" % (j - 1, j))
        v = u
    cols.append(spread)
    names.append("spread")
    for what, y, r in (("logL", l, refl), ("logP", lp, refp)):
        if len(np.unique(r)) > 50:
            u = np.searchsorted(r, y) / float(len(r)) - .5
            cols += [u, u * u, (u < -.45) * 1.0, (u > .45) * 1.0]
            names += [what, what + "^2", what + " low", what + " high"]
    return np.column_stack(cols), names


def sampler_for(case, model, prop):
    K = case["K"]
    sl = case["kernel"].startswith("s") and case["kernel"] != "stretch"
    kind = "hmc" if case["kernel"] == "hmc" else "sli" if sl else "mhs"
    s, man = drive.sampler(kind, model, K, case["pool"], case["seed"], proposal=prop)
    s.reset()
    s.Nmcmc = case.get("Nmcmc", K)
    if "mu" in case:
        s.mu, s.max_steps_out, s.tuning_steps = case["mu"], case["out"], 0
    return s


def judge_output(bad, model, thr, old, new, n):
    moved = list(old.values) != list(new.values)
    n["outputs"] += 1
    n["moved"] += moved
    if not new.logL > thr and moved:
        bad.append(("threshold", "moved to %s with log-likelihood %r, threshold %r" % (list(new.values), new.logL, thr)))
    if moved and (new.logL != model.log_likelihood(new) or not model.in_bounds(new) or not model.log_prior(new) > -np.inf):
        bad.append(("support", "moved to %s: log-likelihood %r (model %r), log-prior %r" % (list(new.values), new.logL, model.log_likelihood(new), model.log_prior(new))))
    return moved


def fixed_case(case):
    model = runs.make(case["model"])
    n, bad = dict(outputs=0, moved=0), []
    s = sampler_for(case, model, proposal_of(case["kernel"]))
    N, E = case["n"], case["ensembles"]
    x, thr = population(model, case["q"], N + E * case["pool"], case["seed"] + 1)
    ref, _ = population(model, case["q"], 20000, case["seed"] + 2) if case["q"] < .95 else (x, 0)
    refl, refp = np.sort(model.vlogl(ref)), np.sort(model.vlogp(ref))
    ref = np.sort(ref, axis=0)
    maxlen = s.evolution_points.maxlen
    per = N // E
    before, after, lb, la, pb, pa = [], [], [], [], [], []
    for e in range(E):
        ens = collections.deque(points(model, x[N + e * case["pool"]:N + (e + 1) * case["pool"]]), maxlen=maxlen)
        s.proposal.set_ensemble(ens)
        for row in x[e * per:(e + 1) * per]:
            p, = points(model, [row])
            s.evolution_points = collections.deque([p], maxlen=maxlen)
            s.samples = []
            old = p.copy()
            N_, new = next(s.yield_sample(thr))
            judge_output(bad, model, thr, old, new, n)
            before.append(row)
            after.append(list(new.values))
            lb.append(old.logL)
            la.append(new.logL)
            pb.append(old.logP)
            pa.append(new.logP)
            if bad:
                return dict(trouble=None, bad=bad, n=n, trace=(case["kernel"], case["model"][0]), worst=None)
    return verdict(case, n, bad, np.array(before), np.array(after), (np.array(lb), np.array(pb)), (np.array(la), np.array(pa)), ref, refl, refp)


def verdict(case, n, bad, b, a, lb, la, ref, refl, refp):
    (fa, names), (fb, _) = features(a, *la, ref, refl, refp), features(b, *lb, ref, refl, refp)
    d = fa - fb
    m, sd = d.mean(0), d.std(0, ddof=1)
    t = m / np.maximum(sd / np.sqrt(len(d)), 1e-12)
    t = np.where(sd * np.sqrt(len(d)) < 5 * 1.0, 0.0, t)       # hardly anything changed: no statement
    j = int(np.argmax(np.abs(t)))
    n["statistics"] = len(t)
    n["pairs"] = len(d)
    if abs(t[j]) > 6.0:
        bad.append(("not-invariant", "%s after %d moves, threshold at quantile %g, pool %d: %s of the population changes by %.4f, %.1f sigma (%d points, %.0f%% moved)" % (
            case["kernel"], case["K"], case["q"], case["pool"], names[j], m[j], t[j], len(d), 100.0 * n["moved"] / n["outputs"])))
    return dict(trouble=None, bad=bad, n=n, trace=(case["kind"], case["kernel"], case["model"][0], case["q"], case["K"], case.get("mu"), len(a)), worst=float(np.abs(t[j])),
                t=[(k, float(x)) for k, x in zip(names, t) if x and (k == "spread" or k[:4] in ("logL", "logP"))])


def balance_case(case):
    """single proposals from a density on all of space whose quantiles are known, for a lopsided ensemble: every flow has to be balanced by the one back"""
    from cpnest.parameter import LivePoint
    import array
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    d, N, names = case["d"], case["n"], ["x%d" % i for i in range(case["d"])]
    rng = np.random.RandomState(case["seed"] + 1)
    prop = proposal_of(case["kernel"])
    ens = np.exp(1.2 * rng.randn(case["pool"], d)) - 1
    ens[:, 1:] = ens[:, 1:] * .5 + ens[:, :1] * .7
    prop.set_ensemble(collections.deque([LivePoint(names, d=array.array("d", e)) for e in ens], maxlen=case["pool"]))
    w = case["width"] * max(1.0, ens.std())
    x = -np.log(-np.log(rng.uniform(size=(N, d)))) * w
    y, lj = np.empty((N, d)), np.empty(N)
    for i in range(N):
        new = prop.get_sample(LivePoint(names, d=array.array("d", x[i])))
        y[i] = new.values
        lj[i] = prop.log_J
    z, q = x / w, y / w
    with np.errstate(over="ignore"):
        logr = (z + np.exp(-z) - q - np.exp(-q)).sum(1) + lj
        u, v = np.exp(-np.exp(-z)), np.exp(-np.exp(-q))
    flow = np.exp(np.minimum(0, logr))
    stats, labels = [], []
    scale = np.abs(y - x).mean(0)
    for j in range(d):
        s = np.sign(y[:, j] - x[:, j])
        D = np.abs(y[:, j] - x[:, j]) / scale[j]
        for name, h in (("direction", s), ("distance", s * np.minimum(D, 3)), ("long", s * (D > 1.5)), ("short", s * (D < .3)), ("quantile", v[:, j] - u[:, j]), ("quantile^2", v[:, j] ** 2 - u[:, j] ** 2),
                        ("low", (v[:, j] < .1) * 1. - (u[:, j] < .1)), ("high", (v[:, j] > .9) * 1. - (u[:, j] > .9)), ("cross", u[:, j] * v[:, j] ** 2 - v[:, j] * u[:, j] ** 2)):
            stats.append(flow * h)
            labels.append("%s of x%d" % (name, j))
    g = np.array(stats)
    m, sd = g.mean(1), g.std(1)
    t = np.where(sd * np.sqrt(N) < 30, 0.0, m / np.maximum(sd / np.sqrt(N), 1e-300))
    j = int(np.argmax(np.abs(t)))
    bad = []
    if abs(t[j]) > 6.0:
        bad.append(("not-invariant", "%s, one proposal, %d points in %d dimensions: flow and flow back differ by %.1f sigma (%s)" % (case["kernel"], case["pool"], d, t[j], labels[j])))
    return dict(trouble=None, bad=bad, n=dict(outputs=N, moved=int((flow > 0).sum()), flows=int((flow > .01).sum()), statistics=len(t)), trace=("balance", case["kernel"], d, case["width"], case["pool"]),
                worst=float(abs(t[j])))


def joint_case(case):
    """the other points of the pool are the ensemble, as in a run; the whole pool stays a set of independent draws"""
    model = runs.make(case["model"])
    n, bad = dict(outputs=0, moved=0), []
    s = sampler_for(case, model, proposal_of(case["kernel"]))
    pool = case["pool"]
    trials = case["n"] // pool
    x, thr = population(model, case["q"], trials * pool, case["seed"] + 1)
    ref, _ = population(model, case["q"], 20000, case["seed"] + 2)
    refl, refp = np.sort(model.vlogl(ref)), np.sort(model.vlogp(ref))
    ref = np.sort(ref, axis=0)
    before, after, lb, la, pb, pa = [], [], [], [], [], []
    for i in range(trials):
        pts = points(model, x[i * pool:(i + 1) * pool])
        s.evolution_points = collections.deque(pts, maxlen=s.evolution_points.maxlen)
        s.proposal.set_ensemble(s.evolution_points)
        before += [list(p.values) for p in pts]
        lb += [p.logL for p in pts]
        pb += [p.logP for p in pts]
        for k in range(2 * pool):
            s.samples = []
            old = s.evolution_points[0].copy()
            N_, new = next(s.yield_sample(thr))
            judge_output(bad, model, thr, old, new, n)
        now = list(s.evolution_points)
        if len(now) != pool:
            bad.append(("pool", "the pool has %d points after %d moves, %d before" % (len(now), 2 * pool, pool)))
        after += [list(p.values) for p in now]
        la += [p.logL for p in now]
        pa += [p.logP for p in now]
        if bad:
            return dict(trouble=None, bad=bad, n=n, trace=(case["kernel"], case["model"][0]), worst=None)
    return verdict(case, n, bad, np.array(before), np.array(after), (np.array(lb), np.array(pb)), (np.array(la), np.array(pa)), ref, refl, refp)


def threshold_case(case):
    """thresholds at, between and above the likelihoods of the pool, also from starting points that do not exceed them"""
    model = runs.make(case["model"])
    n, bad = dict(outputs=0, moved=0), []
    prop = proposal_of(case["kernel"]) if case["kernel"] != "hmc" else __import__("cpnest.proposal").proposal.HamiltonianProposalCycle(model=model)
    s = sampler_for(case, model, prop)
    r = random.Random(case["seed"])
    hmc, sl = case["kernel"] == "hmc", case["kernel"].startswith("s") and case["kernel"] != "stretch"
    for i in range(case["n"]):
        ls = sorted(p.logL for p in s.evolution_points)
        if hmc:
            thr = r.choice([ls[0], ls[0] - 1.0, -np.inf])
        else:
            thr = r.choice([-np.inf, ls[0], ls[len(ls) // 3], ls[len(ls) // 3], r.choice(ls), math.nextafter(r.choice(ls), -np.inf), ls[-1]])
        s.samples = []
        pool = [list(p.values) for p in s.evolution_points]
        N_, new = next(s.yield_sample(thr))
        n["outputs"] += 1
        moved = list(new.values) not in pool
        n["moved"] += moved
        if not new.logL > thr:
            n["not_above"] = n.get("not_above", 0) + 1
            if moved or hmc:
                bad.append(("threshold", "%s returned %s with log-likelihood %r, threshold %r, which it had not been given" % (case["kernel"], list(new.values), new.logL, thr)))
        if moved and (new.logL != model.log_likelihood(new) or not model.in_bounds(new) or not model.log_prior(new) > -np.inf):
            bad.append(("support", "%s returned %s: log-likelihood %r (model %r), log-prior %r" % (case["kernel"], list(new.values), new.logL, model.log_likelihood(new), model.log_prior(new))))
        if bad:
            break
        if i % 10 == 9:
            s.proposal.set_ensemble(s.evolution_points)
        if i % 200 == 199:          # back to a wide pool
            s.evolution_points.clear()
            s.reset()
            s.Nmcmc = case["K"]
    n["judged_threshold"] = n["outputs"]
    return dict(trouble=None, bad=bad, n=n, trace=("threshold", case["kernel"], case["model"][0], n["moved"]), worst=None)


def one(case):
    return globals()[case["kind"] + "_case"](case)


def run(chk):
    worst, joined = [], collections.defaultdict(list)
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=400), least=0.95):
        chk.case(v["trace"], nontrivial=v["n"]["moved"] > 0.1 * v["n"]["outputs"], sample="%s %s q=%s K=%s" % (case["kernel"], case["model"], case.get("q"), case["K"]))
        chk.count("cases_" + case["kind"])
        if v["worst"] is not None:
            worst.append((v["worst"], v["trace"]))
        for name, t in v.get("t", []):
            joined[case["kernel"], name].append(t)
            joined["slice" if case["kernel"] in SLICE else "mh", name].append(t)
            joined["all", name].append(t)
    worst.sort(reverse=True)
    chk.extra["largest_deviations_sigma"] = [(round(w, 2), str(t)) for w, t in worst[:8]]
    # the same deviation in many cases, each too small for them
    total = sorted(((abs(sum(t)) / math.sqrt(len(t)), k, len(t)) for k, t in joined.items()), reverse=True)
    for z, k, m in total:
        if z > 5.5:
            chk.violation("not-invariant", "%s: %s of the population changes by %.1f sigma over %d cases together" % (k[0], k[1], z, m), kernel=k[0], statistic=k[1])
    chk.count("combined_statistics", len(total))
    chk.extra["largest_combined_sigma"] = [(round(z, 2), str(k)) for z, k, _ in total[:8]]
    chk.require("flows", 500000)
    chk.require("combined_statistics", 60)
    chk.require("pairs", 800000)
    chk.require("statistics", 800)
    chk.require("judged_threshold", 10000)
    chk.require("not_above", 50)
