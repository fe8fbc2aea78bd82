"""C13: evidence, weights and draws of cpnest.nest2pos against an independent reference; draw frequencies over many draws."""
import random
import numpy as np
from vlib import chains, runs
from vlib.check import forked

RULE = ("one case = one chain whose weights are recomputed, or one weight vector from which many draws are made; non-trivial if it has ties, zero likelihoods, an offset, "
        "or weights that are not normalised")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reference oracle for weights (relative 1e-9) and frequency monitor over repeated draws (6 sigma, calibrated)"
NOTE = ("Weights and evidence of every explored chain are compared number by number; drawing is judged structurally at every call and statistically over thousands of calls. "
        "Chains and weights are sampled by seed.")
ASSUMPTIONS = ["the volume ladder is the one documented in DESIGN.md: factor 1-1/N per point while N points are live"]


def cases(chk):
    r = random.Random(chk.seed * 179424673 + 13)
    out = [dict(kind="weights", model=("-", {}), kw={}, n=400 if chk.thorough else 120, seed=r.randrange(1, 10 ** 6)) for _ in range(16 if chk.thorough else 8)]
    for i in range(64 if chk.thorough else 16):
        out.append(dict(kind="draw", model=("-", {}), kw={}, n=6000 if chk.thorough else 2500, which=i, seed=r.randrange(1, 10 ** 6)))
    for i in range(64 if chk.thorough else 16):
        out.append(dict(kind="drawN", model=("-", {}), kw={}, n=30, which=i, seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def weights_case(case):
    from cpnest.nest2pos import compute_weights
    r = np.random.RandomState(case["seed"])
    bad, n = [], dict(chains=0, weights=0, shift_pairs=0)
    for i in range(case["n"]):
        N = int(r.choice([2, 3, 10, 50, 100, 400]))
        m = N + int(r.choice([0, 1, 2, 10, 3 * N, 12 * N]))
        kind = chains.KINDS[r.randint(len(chains.KINDS))]
        off = float(r.choice([0, 0, 100, -1e4, 1e6, -3e8]))
        a = chains.nschain(r, N, m, kind)
        if kind == "zero-start" and m - m // 8 < 2:
            continue
        out = []
        for o in (0.0, off):
            l = a["logL"] + o
            keep = l.copy()
            ev, w = compute_weights(l, N)
            lz, lw = chains.weights(l, N)
            fin = l[np.isfinite(l)]
            scale = 1 + np.max(np.abs(fin))
            tol = 1e-8 + 2e-15 * scale * 20
            what = "%s chain, N=%d, %d rows, offset %g" % (kind, N, m, o)
            if not abs(ev - lz) <= tol:
                bad.append(("evidence", "%s: %.15g instead of %.15g" % (what, ev, lz)))
            if len(w) != m:
                bad.append(("weights", "%s: %d weights" % (what, len(w))))
            else:
                d = np.where(np.isfinite(lw), np.abs(w - lw), np.where(w == lw, 0, np.inf))
                if not (d <= tol).all():
                    k = int(np.argmax(d))
                    bad.append(("weights", "%s: log-weight of row %d is %.15g instead of %.15g" % (what, k, w[k], lw[k])))
            if not np.array_equal(l, keep):
                bad.append(("input-changed", what))
            out.append((ev, w, tol))
            n["chains"] += 1
            n["weights"] += m
        (e0, w0, t0), (e1, w1, t1) = out
        if not abs(e1 - e0 - off) <= t0 + t1:
            bad.append(("shift", "adding %g moves the evidence by %r" % (off, e1 - e0)))
        with np.errstate(invalid="ignore"):
            if not (np.abs(np.where(w0 == w1, 0, w1 - w0)) <= t0 + t1).all():
                bad.append(("shift-weights", "%s: adding %g changes weights" % (kind, off)))
        n["shift_pairs"] += 1
    return dict(trouble=None, bad=bad[:10], n=n, trace=case["seed"])


def make_weights(which, r):
    k = which % 8
    m = int(r.choice([3, 10, 40]))
    if k == 0:
        w = r.normal(size=m)
    elif k == 1:
        w = np.concatenate((np.full(m // 2, -3.0), r.normal(size=m - m // 2)))
    elif k == 2:
        w = r.normal(size=m) * 4 + 700.0
    elif k == 3:
        w = r.normal(size=m) - 900.0
    elif k == 4:
        w = r.normal(size=m); w[::3] = -np.inf
    elif k == 5:
        w = np.zeros(m)
    elif k == 6:
        w = np.log(np.arange(1.0, m + 1))[::-1].copy()
    else:
        a = chains.nschain(r, 10, 60, "gauss")
        w = chains.weights(a["logL"], 10)[1]
    return w


def table(m):
    a = np.zeros(m, dtype=[("x", "f8"), ("id", "f8"), ("logL", "f8")])
    a["id"] = np.arange(m)
    a["x"] = np.linspace(-1, 1, m)
    return a


def judge_freq(bad, mech, counts, p, n, what):
    sd = np.sqrt(n * p * (1 - p))
    for i in range(len(p)):
        if p[i] == 0 and counts[i]:
            bad.append((mech, "%s: row %d of weight zero was drawn %d times" % (what, i, counts[i])))
        elif abs(counts[i] - n * p[i]) > 6 * sd[i] + 4:
            bad.append((mech, "%s: row %d was drawn %d times of %d, expected %.1f +- %.1f" % (what, i, counts[i], n, n * p[i], sd[i])))
    # all rows together
    g = (p > 0) & (n * p * (1 - p) > 5)
    if g.sum() > 3:
        z = (counts[g] - n * p[g]) / sd[g]
        c2, k = float((z ** 2).sum()), int(g.sum())
        if c2 > k + 8 * np.sqrt(2 * k) + 12:
            bad.append((mech, "%s: frequencies off, chi2 %.1f for %d rows" % (what, c2, k)))


def draw_case(case):
    from cpnest.nest2pos import draw_posterior
    r = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] + 1)
    bad = []
    w = make_weights(case["which"], r)
    data, m = table(len(w)), len(w)
    keep_d, keep_w = data.copy(), w.copy()
    counts = np.zeros(m)
    top = np.where(w == w.max())[0]
    rows = 0
    for _ in range(case["n"]):
        got = draw_posterior(data, w)
        ids = got["id"].astype(int)
        rows += len(ids)
        counts[ids] += 1
        if len(ids) > 1 and not (np.diff(ids) > 0).all():
            bad.append(("order", "rows %s come out of order or twice" % ids[:10]))
            break
        if not set(top) <= set(ids):
            bad.append(("maximum-missing", "the row of maximal weight is missing from a draw"))
            break
        if len(ids) and (got["x"] != keep_d["x"][ids]).any():
            bad.append(("invented", "a drawn row is no row of the input"))
            break
    if not (np.array_equal(data, keep_d) and np.array_equal(w, keep_w)):
        bad.append(("input-changed", "draw_posterior changed its input"))
    if not bad:
        judge_freq(bad, "frequency", counts, np.exp(w - w.max()), case["n"], "draw_posterior, weights of kind %d" % (case["which"] % 8))
    return dict(trouble=None, bad=bad, n=dict(draws=case["n"], rows_drawn=rows), trace=case["which"])


def drawN_case(case):
    from cpnest.nest2pos import draw_N_posterior
    r = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] + 1)
    bad = []
    w = make_weights(case["which"], r)
    data, m = table(len(w)), len(w)
    counts, total = np.zeros(m), 0
    for i in range(case["n"]):
        N = int(r.choice([0, 1, 2, 7, 500, 3000]))
        got = draw_N_posterior(data, w, N)
        if len(got) != N:
            bad.append(("number", "%d samples requested, %d returned" % (N, len(got))))
            break
        if N:
            ids = got["id"].astype(int)
            if (got["x"] != data["x"][ids]).any():
                bad.append(("invented", "a drawn row is no row of the input"))
            np.add.at(counts, ids, 1)
            total += N
    p = np.exp(w - w.max())
    p /= p.sum()
    if not bad:
        judge_freq(bad, "frequency-N", counts, p, total, "draw_N_posterior, weights of kind %d" % (case["which"] % 8))
    return dict(trouble=None, bad=bad, n=dict(drawsN=case["n"], rows_drawn=total), trace=case["which"])


def one(case):
    return dict(weights=weights_case, draw=draw_case, drawN=drawN_case)[case["kind"]](case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=300)):
        for i in range(v["n"].get("chains", 1)):
            chk.case((case["kind"], case["seed"], i), True, sample=dict(kind=case["kind"], which=case.get("which"), observed=v["n"]) if not i else None)
    for k, least in dict(chains=1000, weights=100000, draws=10000, drawsN=200, rows_drawn=200000, shift_pairs=500).items():
        chk.require(k, least)
