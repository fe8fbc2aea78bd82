"""C26: calls to every jump of a proposal cycle, the Jacobian it reports and the ensembles it passes on, counted at the jumps."""
import collections, random, tempfile, shutil
import numpy as np
from array import array
from vlib import runs, nsref, drive
from vlib.check import forked

RULE = ("one case = one set of weights (possibly with added jumps) over many cycles, all calls counted, or one complete simulated run with the user's jumps; "
        "non-trivial if the weights differ or do not add up to one")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: call counters inside the jumps, Jacobian compared after every call, frequencies tested at 6 sigma"
NOTE = ("Jacobians and ensembles are compared exactly at every call; frequencies statistically (6 sigma on the number of cycles drawn). Weights are sampled by seed.")
ASSUMPTIONS = ["a cycle of length L is either L independent choices or less variable than that"]
TALLY = collections.Counter()


class Extra(object):
    """something else a user's jump may derive from"""
    note = "mixed in"


def make_jump(tag, jac, ensemble=True):
    from cpnest import proposal as P
    top = P.EnsembleProposal if ensemble else P.Proposal
    # a user's own base class, directly, over one more step, or mixed with another class
    bases = [(top,), (type("Mine", (top,), {}),), (Extra, top), (type("Mine", (Extra, type("Base", (top,), {})), {}),)][tag % 4]

    class Jump(*bases):
        def __init__(self):
            self.calls, self.sets, self.k = 0, [], 0

        def get_sample(self, old, **kw):
            self.calls += 1
            self.k += 1
            self.kw = kw
            self.log_J = jac + 0.001 * (self.k % 17)
            return old

        def get_direction(self, mu=1.0, **kw):
            self.calls += 1
            self.k += 1
            self.mu = mu
            self.log_J = jac + 0.001 * (self.k % 17)
            return old

        if ensemble:
            def set_ensemble(self, ensemble):
                self.sets.append(ensemble)
                self.ensemble = ensemble
    j = Jump()
    j.tag = tag
    return j


def cases(chk):
    r = random.Random(chk.seed * 160481183 + 26)
    out = []
    for i in range(60 if chk.thorough else 16):
        k = r.choice([1, 2, 3, 5, 8])
        w = [r.choice([1, 2, 5, 10, 0.1, 0.3, 1e-3, 100, 7]) for _ in range(k)]
        if i % 5 == 4:
            w = [x * 1e6 for x in w]
        if k > 2 and i % 3 == 1:
            w[r.randrange(k)] = 0
        out.append(dict(kind="cycle", model=("-", {}), kw={}, weights=w, length=r.choice([None, 10, 37, 100, 1000]), add=r.choice([[], [1.0], [0.25, 3.0], [10]]),
                        cycles=r.choice([150, 300]), seed=r.randrange(1, 10 ** 6)))
    for i in range(6 if chk.thorough else 3):
        out.append(dict(kind="shipped", model=("gauss_prior", {}), kw={}, seed=r.randrange(1, 10 ** 6), cycles=400))
    for i in range(12 if chk.thorough else 4):
        out.append(dict(kind="run", model=("gauss", dict(d=2)), kw=dict(nthreads=2, nlive=15, maxmcmc=15, poolsize=12, nslice=i % 2), form=["dict", "list"][i % 2],
                        policy={}, seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def freq(bad, label, counts, probs, L, cycles, per):
    """counts: calls per jump over `cycles` freshly drawn cycles of length L, each gone through `per` times"""
    total = sum(counts)
    for i, (c, p) in enumerate(zip(counts, probs)):
        if p == 0:
            if c:
                bad.append(("zero-weight", "%s: a jump of weight zero was called %d times" % (label, c)))
            continue
        e = p * total
        sd = per * np.sqrt(cycles * L * p * (1 - p)) + 1e-9
        if abs(c - e) > 6 * sd + per * 3:
            bad.append(("frequency", "%s: jump %d of weight %.5g was called %d times of %d, expected %.1f +- %.1f" % (label, i, p, c, total, e, sd)))


def cycle_case(case):
    from cpnest import proposal as P
    from cpnest.parameter import LivePoint
    np.random.seed(case["seed"]); random.seed(case["seed"])
    w0 = list(case["weights"])
    bad, n = [], dict(calls=0, jacobians=0, updates=0, cycles=0)
    total = np.zeros(len(w0) + len(case["add"]))
    first = np.zeros(len(w0))
    spread = np.zeros(len(w0))
    p = LivePoint(["x", "y"])
    per = 2
    for c in range(case["cycles"]):
        jumps = [make_jump(i, float(i + 1), ensemble=bool((i + c) % 3)) for i in range(len(w0))]
        kw = {} if case["length"] is None else dict(cyclelength=case["length"])
        cyc = P.ProposalCycle(list(jumps), list(w0), **kw)
        L = case["length"] or 100
        n["cycles"] += 1
        ens = [p.copy(), p.copy()]

        def update():
            e = list(ens)
            cyc.set_ensemble(e)
            n["updates"] += 1
            for j in jumps:
                if isinstance(j, P.EnsembleProposal) and (not j.sets or j.sets[-1] is not e):
                    bad.append(("ensemble", "a jump of weight %r did not get the ensemble update" % (j.tag,)))

        def use(k):
            for _ in range(k):
                b = [j.calls for j in jumps]
                cyc.get_sample(p.copy(), logLmin=-3.0)
                who = [j for j, x in zip(jumps, b) if j.calls != x]
                n["calls"] += 1
                if len(who) != 1 or who[0].calls - b[jumps.index(who[0])] != 1:
                    bad.append(("one-jump", "one request called %d jumps" % len(who)))
                    return
                n["jacobians"] += 1
                if cyc.log_J != who[0].log_J:
                    bad.append(("jacobian", "the cycle reports log_J %r after a jump with %r" % (cyc.log_J, who[0].log_J)))
                if who[0].kw != dict(logLmin=-3.0):
                    bad.append(("arguments", "the jump was called with %r" % (who[0].kw,)))
        update()
        use(per * L)
        first += [j.calls for j in jumps]
        norm = np.array(w0, float) / sum(w0)
        spread += (np.array([j.calls for j in jumps]) / per - L * norm) ** 2
        if not np.allclose(cyc.weights, norm, rtol=1e-12):
            bad.append(("weights", "weights %s became %s" % (w0, list(cyc.weights))))
        if case["add"]:
            w = list(norm)
            for a in case["add"]:
                j = make_jump(len(jumps), float(len(jumps) + 1))
                jumps.append(j)
                cyc.add_proposal(j, a)
                w = list(np.array(w + [a]) / (sum(w) + a))
            if not np.allclose(cyc.weights, w, rtol=1e-9) or abs(sum(cyc.weights) - 1) > 1e-9:
                bad.append(("weights-added", "weights %s instead of %s after adding %s" % (list(cyc.weights), w, case["add"])))
            if len(cyc.weights) != len(cyc.proposals):
                bad.append(("weights-added", "%d weights for %d jumps" % (len(cyc.weights), len(cyc.proposals))))
            update()
            for j in jumps:
                j.calls = 0
            use(per * L)
            total += [j.calls for j in jumps]
            wadd = w
        if bad:
            break
    if not bad:
        # one user has one cycle: how far its proportions are from the weights
        for i, p in enumerate(np.array(w0, float) / sum(w0)):
            if L * p * (1 - p) > 2:
                n["spreads"] = n.get("spreads", 0) + 1
                z = spread[i] / (L * p * (1 - p)) / case["cycles"]
                if z > 1 + 7 * np.sqrt(2.5 / case["cycles"]):
                    bad.append(("frequency", "weights %s: over %d calls jump %d is %.2f times as far from its share as independent choices would be" % (w0, per * L, i, np.sqrt(z))))
        freq(bad, "weights %s" % w0, first, np.array(w0, float) / sum(w0), L, case["cycles"], per)
        if case["add"]:
            freq(bad, "weights %s, added %s" % (w0, case["add"]), total, wadd, L, case["cycles"], per)
    return dict(trouble=None, bad=bad[:10], n=n, trace=str(w0))


def shipped_case(case):
    """the cycles that come with the package: their own weights, real jumps"""
    from cpnest import proposal as P
    np.random.seed(case["seed"]); random.seed(case["seed"])
    model = runs.make(case["model"])
    r = np.random.RandomState(case["seed"])
    ens = [model.point(x) for x in model.prior(30, r)]
    bad, n = [], dict(calls=0, jacobians=0, cycles=0)
    for cls, w, how in ((P.DefaultProposalCycle, dict(EnsembleWalk=5, EnsembleStretch=5, DifferentialEvolution=10, EnsembleEigenVector=10), "get_sample"),
                        (P.EnsembleSliceProposalCycle, dict(EnsembleSliceDifferential=1, EnsembleSliceGaussian=1, EnsembleSliceCorrelatedGaussian=1), "get_direction")):
        counts = collections.Counter()
        for c in range(case["cycles"]):
            cyc = cls()
            n["cycles"] += 1
            called = []
            for j in cyc.proposals:
                inner = getattr(j, how)

                def spy(*a, _inner=inner, _j=j, **k):
                    called.append(_j)
                    return _inner(*a, **k)
                setattr(j, how, spy)
            cyc.set_ensemble(ens)
            for j in cyc.proposals:
                if j.ensemble is None:
                    bad.append(("ensemble", "%s got no ensemble" % type(j).__name__))
            for _ in range(len(cyc.cycle) if hasattr(cyc, "cycle") else 100):
                del called[:]
                getattr(cyc, how)(*([ens[3].copy()] if how == "get_sample" else [1.0]))
                n["calls"] += 1
                if len(called) != 1:
                    bad.append(("one-jump", "one request called %d jumps" % len(called)))
                    break
                counts[type(called[0]).__name__] += 1
                n["jacobians"] += 1
                if cyc.log_J != called[0].log_J:
                    bad.append(("jacobian", "%s reports log_J %r, %s has %r" % (cls.__name__, cyc.log_J, type(called[0]).__name__, called[0].log_J)))
            if bad:
                break
        if set(counts) - set(w):
            bad.append(("unknown-jump", str(counts)))
        elif not bad:
            names = sorted(w)
            s = float(sum(w.values()))
            freq(bad, cls.__name__, [counts[k] for k in names], [w[k] / s for k in names], 100, case["cycles"], 1)
    return dict(trouble=None, bad=bad[:10], n=n, trace=0)


def run_case(case):
    from cpnest import proposal as P
    folder = tempfile.mkdtemp(prefix="c26-", dir=case["scratch"])
    tally, jac = collections.Counter(), []

    class Mine(P.DifferentialEvolution):
        def get_sample(self, old):
            tally["mhs"] += 1
            return super().get_sample(old)

    class MyCycle(P.ProposalCycle):
        def __init__(self):
            super().__init__([Mine(), P.EnsembleWalk()], [3, 1])

    class MySlice(P.EnsembleSliceProposalCycle):
        def get_direction(self, *a, **k):
            tally["sli"] += 1
            return super().get_direction(*a, **k)

    d = dict(mhs=MyCycle, hmc=P.HamiltonianProposalCycle, sli=MySlice)
    kw = dict(case["kw"], proposals=d if case["form"] == "dict" else [d["mhs"], d["hmc"], d["sli"]])
    res, sim, model = runs.simulate(dict(case, kw=kw), folder)
    out = dict(trouble=runs.trouble(res), bad=[], n={})
    if res.status == "ok":
        for i, s in enumerate(runs.samplers(res.cp)):
            want = MySlice if i >= 2 - case["kw"]["nslice"] else MyCycle
            if type(s.proposal) is not want:
                out["bad"].append(("custom-ignored", "sampler %d uses %s" % (i, type(s.proposal).__name__)))
        if not tally["mhs"] or (case["kw"]["nslice"] and not tally["sli"]):
            out["bad"].append(("custom-unused", str(tally)))
        out["n"] = dict(custom_calls=sum(tally.values()))
        out["trace"] = sim.trace_hash
    shutil.rmtree(folder, ignore_errors=True)
    return out


def one(case):
    return dict(cycle=cycle_case, shipped=shipped_case, run=run_case)[case["kind"]](case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=300)):
        chk.case((runs.describe(case), str(case.get("weights")), str(case.get("add")), v.get("trace")), len(set(case.get("weights", [1, 2]))) > 1 or case.get("add"),
                 sample=dict(weights=case.get("weights"), added=case.get("add"), kind=case["kind"], observed=v["n"]))
    for k, least in dict(calls=100000, jacobians=100000, updates=2000, cycles=2000, custom_calls=1000).items():
        chk.require(k, least)
