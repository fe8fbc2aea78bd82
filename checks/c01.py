"""C01: the evidence and information of complete simulated runs against the exact values, over models, mixes and schedules."""
import random, shutil, tempfile
import numpy as np
from vlib import evid, runs
from vlib.check import forked

RULE = ("one case = one complete (possibly interrupted and resumed) run of the real code on a model with exact evidence and information; distinct = distinct recorded trace; "
        "non-trivial = the run recorded at least three times as many samples as live points")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reported evidence and information of complete runs under controlled schedules, judged against exact values by tests at 4.5 sigma"
NOTE = ("Statistical: mean deviations are tested per model, per number and mix of samplers and over all runs, at 4.5 sigma plus the small bias that chains of finite length have by "
        "nature (calibrated: below 0.9 standard errors for any model, 0.1 over all). A bias smaller than that is not seen. Models whose likelihood is zero or constant on a part of the prior are known findings.")
ASSUMPTIONS = ["4.5 sigma deviations do not occur by chance", "numbers of samplers up to 4 % of the live points", "chains of the sampled lengths mix on the sampled models"]
# what one run may deviate on average, in its standard errors, and the scatter of a run (calibrated over 768 runs: scatter 0.87-1.22)
CELL, GROUP, SD = 1.0, 0.6, 1.25


def cases(chk):
    r = random.Random(chk.seed * 715225741 + 1)
    out = []
    for i in range(45 if chk.thorough else 9):
        for c in range(len(evid.CELLS)):
            case = evid.case_of(c, i, r, resumed=i % 5 == 4)
            if i % 9 == 7:
                case.update(real=True, policy="of the system")
            out.append(dict(case, scratch=chk.scratch))
    out.sort(key=lambda c: -(5 * ("nhamiltonian" in c["kw"]) + ("nslice" in c["kw"])))
    return out


def special(case):
    folder = tempfile.mkdtemp(prefix="c01-", dir=case["scratch"])
    try:
        res, sim, model = runs.simulate(case, folder)
        t = runs.trouble(res)
        return dict(trouble=t, logZ=None if t else float(res.cp.NS.logZ), n=len(res.cp.NS.nested_samples) if not t else 0, trace=sim.trace_hash)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


# model, exact log-evidence, information, mechanism of the finding, factor of the evidence it explains
SPECIAL = [("HoleL", -1.151229289881375, 0.6328928085318511, "zero-likelihood-volume", -np.log(0.6)),
           ("steps", 0.4084066696715609, 0.1383284398798773, "likelihood-plateau", 0.208)]


def known(chk):
    cs = []
    r = random.Random(chk.seed * 5 + 11)
    for name, *_ in SPECIAL:
        for i in range(12 if chk.thorough else 6):
            cs.append(dict(model=(name, {}), kw=dict(nthreads=1 + i % 2, nlive=100, maxmcmc=100, poolsize=100), policy=runs.POLICIES[i % 3], seed=r.randrange(1, 10 ** 6), budget=400000, scratch=chk.scratch))
    got = {}
    for o in forked(cs, special, timeout=400):
        if o.status != "ok" or o.value["trouble"]:
            if o.status == "timeout" or (o.status == "ok" and o.value["trouble"].startswith("budget")):
                continue
            if o.status == "ok":
                chk.violation("run-failed", runs.describe(o.case) + ": " + o.value["trouble"][-1500:], case=o.case)
            else:
                chk.inconclusive("%s: %s %s" % (runs.describe(o.case), o.status, str(o.value)[-800:]))
            continue
        got.setdefault(o.case["model"][0], []).append(o.value["logZ"])
        chk.case((o.case["model"][0], o.value["trace"]), o.value["n"] > 200)
        chk.count("runs_on_zero_or_constant_likelihoods")
    for name, logZ, H, mech, factor in SPECIAL:
        if len(got.get(name, ())) < 4:
            continue
        dev = np.array(got[name]) - logZ
        se = 1.25 * np.sqrt(H / 100.0 / len(dev))
        chk.extra["mean_logZ_error_" + name] = round(float(dev.mean()), 3)
        if abs(dev.mean()) > 4.5 * se + 0.02:
            if abs(dev.mean() - factor) < 4.5 * se + 0.06:
                chk.violation(mech, "mean log-evidence %.3f over %d runs on %s, exact value %.3f" % (dev.mean() + logZ, len(dev), name, logZ))
            else:
                chk.violation("evidence-" + name, "mean log-evidence %.3f over %d runs on %s, exact value %.3f" % (dev.mean() + logZ, len(dev), name, logZ))


def test(chk, what, cases, vals, names, allowed):
    R = len(vals)
    if R < 4:
        return
    for k, quantity in ((0, "log-evidence"), (1, "information")):
        m = float(np.mean([v[k] for v in vals]))
        lim = allowed + 4.5 * SD / np.sqrt(R)
        chk.count("tests")
        chk.extra.setdefault("largest_deviation", []).append((round(abs(m) / lim, 2), what, quantity, round(m, 2), R))
        if abs(m) > lim:
            chk.violation("biased-" + quantity, "%s: mean deviation of the %s over %d runs is %.2f standard errors (allowed %.2f), e.g. %s" % (
                what, quantity, R, m, lim, runs.describe(evid.shown(cases[0]))), case=cases[0])


def run(chk):
    groups = {}
    for case, v in runs.conclude(chk, forked(cases(chk), evid.one, timeout=400), least=0.85):
        err = np.sqrt(v["true"][1] / v["nlive"])
        z, h = (v["logZ"] - v["true"][0]) / err, (v["info"] - v["true"][1]) / err
        chk.case((case["cell"], v["trace"]), v["steps"] >= 3 * v["nlive"], sample=dict(case=runs.describe(evid.shown(case)), deviation=[round(z, 2), round(h, 2)]))
        chk.count("nested_samples", v["steps"])
        if not (abs(z) < 8 and abs(h) < 8):
            chk.violation("wrong-evidence", "%s: log-evidence %.4f and information %.4f, exact values %.4f and %.4f, standard error %.4f" % (
                runs.describe(evid.shown(case)), v["logZ"], v["info"], v["true"][0], v["true"][1], err), case=case)
        kw = case["kw"]
        kind = "Hamiltonian" if kw.get("nhamiltonian") else "slice" if kw.get("nslice") else "Metropolis-Hastings"
        for g in [("model %s %s %s" % (case["model"][0], case["model"][1], kind), CELL), ("all runs", GROUP), ("%d samplers" % kw["nthreads"], GROUP), (kind + " samplers", GROUP),
                  ("runs of real processes" if case.get("real") else "resumed runs" if v["n"]["resumed"] else "uninterrupted runs", GROUP), ("%s live points" % kw["nlive"], GROUP)]:
            groups.setdefault(g, []).append((case, (z, h)))
    for (what, allowed), vals in sorted(groups.items(), key=lambda x: x[0][0]):
        test(chk, what, [c for c, _ in vals], [v for _, v in vals], ("z", "h"), allowed)
        R = len(vals)
        if R >= 30:
            s = float(np.sqrt(np.mean([v[0] ** 2 for _, v in vals])))
            if s > 1.8:
                chk.violation("error-underestimated", "%s: the log-evidences of %d runs scatter by %.2f times their statistical error" % (what, R, s))
    if "largest_deviation" in chk.extra:
        chk.extra["largest_deviation"] = sorted(chk.extra["largest_deviation"], reverse=True)[:8]
    known(chk)
    chk.require("tests", 30)
    chk.require("resumed", 5)
    chk.require("real_processes", 6)
