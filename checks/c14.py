"""C14: combining runs: where the rows come from and how many each run contributes."""
import random
import numpy as np
from vlib import chains, runs
from vlib.check import forked
from checks.c13 import judge_freq

RULE = ("one case = one set of runs combined many times, or one set combined for many requested totals; non-trivial if the runs differ in length, live points or evidence")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: provenance of every row (tagged inputs), contributions per run against evidence shares (exact for totals, 6 sigma for random draws)"
NOTE = "Provenance is exact at every call; contributions to requested totals are exact, others statistical over many calls. Sets of runs are sampled by seed."
ASSUMPTIONS = []


def cases(chk):
    r = random.Random(chk.seed * 198491317 + 14)
    k = 3 if chk.thorough else 1
    out = [dict(kind="many", n=400 * k, which=i) for i in range(24 * k)]
    out += [dict(kind="total", n=60 * k, which=i) for i in range(12 * k)]
    return [dict(c, model=("-", {}), kw={}, scratch=chk.scratch, seed=r.randrange(1, 10 ** 6)) for c in out]


def make_set(which, r):
    """datas, Nlives, what"""
    k = which % 6
    if k == 0:      # replicates in any order: the same chain, tagged differently, of unequal position
        N, m = int(r.choice([10, 30])), int(r.choice([80, 200]))
        m = max(m, N)
        base = chains.nschain(r, N, m, "gauss", tag=0)
        ds = []
        for i in range(int(r.choice([2, 3, 5]))):
            b = base.copy(); b["id"] = i * 1e6 + np.arange(m); ds.append(b)
        return ds, [N] * len(ds), "replicates"
    if k == 1:      # the same chain shifted by a constant
        N = 20
        base = chains.nschain(r, N, 150, "gauss")
        ds = []
        for i, o in enumerate(r.permutation([0.0, -0.7, -1.5, 0.4])[:int(r.choice([2, 3, 4]))]):
            b = base.copy(); b["id"] = i * 1e6 + np.arange(150); b["logL"] += o; ds.append(b)
        return ds, [N] * len(ds), "shifted"
    if k == 2:      # one with negligible evidence
        ds = [chains.nschain(r, 15, 100, "gauss", tag=0), chains.nschain(r, 25, 140, "gauss", tag=1, offset=-80.0), chains.nschain(r, 10, 60, "gauss", tag=2)]
        o = r.permutation(3)
        ds = [ds[i] for i in o]
        return ds, [[15, 25, 10][i] for i in o], "negligible"
    if k == 3:      # unequal lengths and live points
        Ns = [int(x) for x in r.choice([5, 12, 40, 80], size=int(r.choice([2, 3, 4])))]
        ds = [chains.nschain(r, N, N + int(r.choice([0, 7, 5 * N])), "gauss", tag=i, offset=float(r.normal())) for i, N in enumerate(Ns)]
        return ds, Ns, "unequal"
    if k == 4:
        N = int(r.choice([2, 9, 33]))
        return [chains.nschain(r, N, N * 4, chains.KINDS[r.randint(5)])], [N], "single"
    Ns = [30, 30, 30]
    return [chains.nschain(r, 30, 200, kd, tag=i, offset=o) for i, (kd, o) in enumerate((("gauss", 0.0), ("steep", 60.0), ("zero-start", 1.0)))], Ns, "mixed"


def provenance(bad, got, datas):
    tags = (got["id"] // 1e6).astype(int)
    idx = (got["id"] % 1e6).astype(int)
    byt = {int(d["id"][0] // 1e6): d for d in datas}
    for t in set(tags):
        if t not in byt or (idx[tags == t] >= len(byt[t])).any() or (byt[t][idx[tags == t]] != got[tags == t]).any():
            bad.append(("invented", "a returned row is no row of run %d" % t))
    return tags, idx


def many_case(case):
    from cpnest.nest2pos import draw_posterior_many
    r = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] + 7)
    datas, Ns, what = make_set(case["which"], r)
    shift = float(r.choice([0.0, 0.0, -1000.0, 900.0]))
    for d in datas:
        d["logL"] += shift
    keep = [d.copy() for d in datas]
    bad = []
    tagof = [int(d["id"][0] // 1e6) for d in datas]
    ref = [chains.weights(d["logL"], N) for d, N in zip(datas, Ns)]
    z = np.array([x[0] for x in ref])
    share = np.exp(z - z.max()) / np.array([len(d) for d in datas])
    share /= share.max()
    counts = [np.zeros(len(d)) for d in datas]
    rows = 0
    for _ in range(case["n"]):
        got = draw_posterior_many(datas, Ns)
        tags, idx = provenance(bad, got, datas)
        if bad:
            break
        if len(set(zip(tags, idx))) != len(got):
            bad.append(("twice", "a row is returned twice"))
            break
        rows += len(got)
        for k, t in enumerate(tagof):
            counts[k][idx[tags == t]] += 1
    if any(not np.array_equal(a, b) for a, b in zip(datas, keep)):
        bad.append(("input-changed", "draw_posterior_many changed its input"))
    if not bad:
        n = case["n"]
        tot = np.array([c.sum() for c in counts])
        for k in range(len(datas)):
            p = np.exp(ref[k][1] - ref[k][1].max()) * share[k]
            if z[k] < z.max() - 50 and counts[k].sum():
                bad.append(("negligible", "a run with evidence exp(%.0f) of the others contributes %d rows" % (z[k] - z.max(), counts[k].sum())))
            judge_freq(bad, "share", counts[k], p, n, "%s runs, run %d of %d" % (what, k, len(datas)))
            e, sd = n * p.sum(), np.sqrt(n * (p * (1 - p)).sum())
            if abs(tot[k] - e) > 6 * sd + 4:
                bad.append(("share", "%s runs: run %d contributes %d rows in %d draws, expected %.1f +- %.1f" % (what, k, tot[k], n, e, sd)))
    return dict(trouble=None, bad=bad[:8], n=dict(combinations=case["n"], rows=rows), trace=what)


def total_case(case):
    from cpnest.nest2pos import draw_N_posterior_many
    r = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] + 7)
    bad, n, rows = [], 0, 0
    for w in range(case["n"] // 10):
        datas, Ns, what = make_set(case["which"] + w, r)
        shift = float(r.choice([0.0, 0.0, -1000.0, 900.0, -3e4]))         # whatever the units of the likelihood
        for d in datas:
            d["logL"] += shift
        ref = [chains.weights(d["logL"], N)[0] for d, N in zip(datas, Ns)]
        tot = np.logaddexp.reduce(ref)
        for _ in range(10):
            want = int(r.choice([0, 1, 2, 3, 10, 99, 1000, 4321]))
            got = draw_N_posterior_many(datas, Ns, want)
            tags, idx = provenance(bad, got, datas)
            n += 1
            rows += len(got)
            for k, d in enumerate(datas):
                x = want * np.exp(ref[k] - tot)
                if abs(x - np.floor(x) - 0.5) < 1e-6:
                    continue            # a tie in the rounding
                have = int((tags == int(d["id"][0] // 1e6)).sum())
                if have != int(round(x)):
                    bad.append(("total-share", "%s runs: %d samples requested, run %d with share %.6g contributes %d" % (what, want, k, x / max(want, 1), have)))
            if bad:
                return dict(trouble=None, bad=bad[:5], n=dict(totals=n, rows=rows), trace=what)
    return dict(trouble=None, bad=bad, n=dict(totals=n, rows=rows), trace=n)


def one(case):
    return dict(many=many_case, total=total_case)[case["kind"]](case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=300)):
        chk.case((case["kind"], case["which"], case["seed"]), case["which"] % 6 != 4, sample=dict(kind=case["kind"], which=case["which"], observed=v["n"]))
    for k, least in dict(combinations=5000, totals=300, rows=50000).items():
        chk.require(k, least)
