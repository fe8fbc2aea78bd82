"""C28: autocorrelation and thinning of chains: invariances, bounds and provenance of the rows."""
import random
import numpy as np
from vlib import runs
from vlib.check import forked

RULE = "one case = one batch of chains; every chain is shifted, scaled, thinned with and without burn-in removal; non-trivial if correlated, short or with constant columns"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: metamorphic relations (shift, scale, correlation) and provenance of every returned row over generated chains"
NOTE = "Every call on the explored chains is judged; chains are sampled by seed."
ASSUMPTIONS = []


def cases(chk):
    r = random.Random(chk.seed * 217645199 + 28)
    return [dict(model=("-", {}), kw={}, n=150 if chk.thorough else 40, seed=r.randrange(1, 10 ** 6), scratch=chk.scratch) for _ in range(24 if chk.thorough else 12)]


def ar1(r, rho, n):
    e = r.normal(size=n) * np.sqrt(1 - rho ** 2)
    x = np.empty(n)
    x[0] = r.normal()
    for i in range(1, n):
        x[i] = rho * x[i - 1] + e[i]
    return x


def one(case):
    from cpnest import nest2pos as P
    r = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] + 3)
    bad, n = [], dict(chains=0, resampled=0, rows=0, invariances=0, orderings=0)
    ratios = []
    for it in range(case["n"]):
        # growth with correlation
        if it % 10 == 0:
            T = [P.acl(ar1(r, rho, 20000)) for rho in (0.0, 0.6, 0.9, 0.97)]
            true = [(1 + q) / (1 - q) for q in (0.0, 0.6, 0.9, 0.97)]
            n["orderings"] += 1
            if not all(b > a for a, b in zip(T, T[1:])):
                bad.append(("growth", "autocorrelation lengths %s for correlations 0, .6, .9, .97" % T))
            if any(not t < x * 2.5 + 4 or not t > x * 0.4 for t, x in zip(T, true)):
                bad.append(("growth", "autocorrelation lengths %s, true ones %s" % (T, true)))
            ratios += [T[2] / true[2], T[3] / true[3]]
        m = int(r.choice([1, 2, 3, 10, 57, 500, 3000]))
        rho = float(r.choice([0.0, 0.5, 0.9, 0.99]))
        x = ar1(r, rho, m)
        kind = r.randint(5)
        if kind == 1:
            x = np.full(m, 3.7)
        if kind == 2:
            x = np.round(x)
        a, k = float(r.choice([0.0, 5.0, -300.0])), float(r.choice([1.0, 4.0, 0.125, -2.0, 1e-3]))
        if kind != 1 and np.var(x) > 1e-6 and m > 1:
            c0, c1 = P.autocorrelation(x), P.autocorrelation(k * x + a)
            n["invariances"] += 1
            if not np.allclose(c0, c1, atol=1e-6):
                bad.append(("invariance", "autocorrelation changes by %g under x -> %g x + %g" % (np.max(np.abs(c0 - c1)), k, a)))
            if abs(c0[0] - 1) > 1e-9 or (np.abs(c0) > 1 + 1e-9).any() or len(c0) != m:
                bad.append(("normalisation", "autocorrelation starts at %r and reaches %r" % (c0[0], np.max(np.abs(c0)))))
            if np.min(np.abs(c0 - 0.01)) > 1e-5 and abs(P.acl(x) - P.acl(k * x + a)) > 1e-4 * P.acl(x):
                bad.append(("invariance", "autocorrelation length %r becomes %r under x -> %g x + %g" % (P.acl(x), P.acl(k * x + a), k, a)))
        t = P.acl(x)
        if not t >= 1 - 1e-9:
            bad.append(("at-least-one", "autocorrelation length %r" % t))
        # resampling
        extra = ["p%d" % i for i in range(int(r.choice([0, 0, 0, 1, 12, 40])))]
        columns = [str(c) for c in r.permutation(["a", "b", "id"] + extra)]
        chain = np.zeros(m, dtype=[(c, "f8") for c in columns + ["logL", "logPrior"]])
        for c in extra:
            chain[c] = r.normal(size=m)
        chain["a"], chain["b"] = x, ar1(r, float(r.choice([0.0, 0.8])), m) if r.randint(2) else 1.0
        idx = r.permutation(m)
        chain["id"] = idx
        chain["logL"] = -0.5 * chain["a"] ** 2 if r.randint(3) else r.normal(size=m) * 50
        chain["logPrior"] = r.choice([0.0, -2.0])
        for burn in (False, True):
            keep = chain.copy()
            got = P.resample_mcmc_chain(chain, burnin=burn)
            n["resampled"] += 1
            n["rows"] += len(got)
            if not np.array_equal(chain, keep):
                bad.append(("input-changed", "resample_mcmc_chain(burnin=%s) changed the caller's chain of %d rows" % (burn, m)))
                chain = keep
            part = keep[m // 2:] if burn else keep
            where = {int(v): i for i, v in enumerate(part["id"])}
            ids = [int(v) for v in got["id"]]
            if len(set(ids)) != len(ids):
                bad.append(("twice", "a row of the chain is returned twice"))
            if any(i not in where or part[where[i]] != g for i, g in zip(ids, got)):
                bad.append(("invented", "a returned row is no row of the chain%s" % (" after burn-in" if burn else "")))
            acl = max(P.acl(part[c]) for c in columns)
            if len(got) > np.ceil(len(part) / max(1.0, np.round(acl))) + 1e-9 or not len(got):
                bad.append(("too-many", "%d rows from %d with autocorrelation length %.2f" % (len(got), len(part), acl)))
        n["chains"] += 1
        if len(bad) > 5:
            break
    return dict(trouble=None, bad=bad[:8], n=n, trace=case["seed"], ratios=ratios)


def run(chk):
    ratios = []
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=300)):
        ratios += v["ratios"]
        for i in range(v["n"]["chains"]):
            chk.case((case["seed"], i), True, sample=dict(seed=case["seed"], observed=v["n"]) if not i else None)
    chk.count("lengths_compared_with_the_true_one", len(ratios))
    if ratios:
        m, e = float(np.mean(ratios)), float(np.std(ratios) / np.sqrt(len(ratios)))
        chk.extra["mean_ratio_to_true_length"] = [m, e]
        if not 0.75 - 6 * e < m < 1.4 + 6 * e:
            chk.violation("growth", "over %d chains of known autocorrelation length the reported one is %.3f +- %.3f times it" % (len(ratios), m, e))
    for k, least in dict(lengths_compared_with_the_true_one=50, chains=200, resampled=300, rows=2000, invariances=150, orderings=20).items():
        chk.require(k, least)
