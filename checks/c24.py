"""C24: points held or recorded are watched for changes at every scheduling point; proposals leave their ensemble alone."""
import random, tempfile, shutil
import numpy as np
from array import array
from vlib import runs, nsref
from vlib.check import forked

RULE = ("one case = one complete simulated run in which all held points are compared with their first sight at every message, or one batch of proposals drawn from a "
        "watched ensemble; all non-trivial")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: shadow copies of every held or recorded point compared bit for bit at each message and at the end"
NOTE = ("All points of the live set, the recorded samples, the ensembles and chains of the explored runs are watched by identity. A change is noticed at the next message "
        "at the latest. Runs and proposals are sampled by seed.")
ASSUMPTIONS = []


def cases(chk):
    r = random.Random(chk.seed * 122949823 + 24)
    out = []
    mods = [("gauss", dict(d=2)), ("Disc", {}), ("Staircase", {}), ("gauss_prior", {}), ("HoleL", {}), ("gauss", dict(d=1)), ("pow_prior", {})]
    for i in range(60 if chk.thorough else 18):
        n = r.choice([1, 2, 3])
        out.append(dict(kind="run", model=mods[i % len(mods)], kw=dict(nthreads=n, nlive=r.choice([n + 3, 15, 25]), maxmcmc=r.choice([4, 12, 30]), poolsize=r.choice([8, 20]),
                        nslice=[0, n, 1][i % 3], verbose=3 * (i % 2), prior_sampling=i % 9 == 8), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    for i in range(8 if chk.thorough else 2):
        out.append(dict(kind="run", model=("gauss_prior", {}), kw=dict(nthreads=1 + i % 2, nlive=15, maxmcmc=8, poolsize=24, nhamiltonian=1), policy=dict(freerun=0.1), seed=r.randrange(1, 10 ** 6)))
    for i in range(12 if chk.thorough else 4):
        out.append(dict(kind="prop", model=[("gauss_prior", {}), ("gauss", dict(d=1)), ("gauss", dict(d=4)), ("Disc", {})][i % 4], kw={}, n=60, seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


class Shadow:
    def __init__(self):
        self.seen, self.bad, self.checks = {}, [], 0

    def look(self, where, p):
        if p is None or not hasattr(p, "logL"):
            return
        self.checks += 1
        k = (p.values.tobytes(), repr(p.logL), repr(p.logP), tuple(p.names))
        old = self.seen.get(id(p))
        if old is None:
            self.seen[id(p)] = (p, k, where)
        elif old[1] != k:
            if len(self.bad) < 4:
                a = array("d"); a.frombytes(old[1][0])
                self.bad.append(("changed-" + where, "a point seen in the %s as %s logL=%s logP=%s is now %s logL=%r logP=%r (in the %s)" % (
                    old[2], list(a), old[1][1], old[1][2], list(p.values), p.logL, p.logP, where)))
            self.seen[id(p)] = (p, k, where)


def run_case(case):
    folder = tempfile.mkdtemp(prefix="c24-", dir=case["scratch"])
    sh, box = Shadow(), {}

    def scan(full=True):
        cp = box["cp"]
        for p in list(cp.NS.params):
            sh.look("live set", p)
        for p in list(cp.NS.nested_samples):
            sh.look("nested samples", p)
        for s in box["samplers"]:
            for p in list(s.evolution_points):
                sh.look("ensemble", p)
            for p in list(s.samples):
                sh.look("chain", p)

    def watch(sim, conn, obj):
        if "cp" in box:
            scan()

    def start(cp):
        box["samplers"] = runs.samplers(cp)
        box["cp"] = cp

    res, sim, model = runs.simulate(case, folder, hooks=dict(after_recv=watch), before_run=start)
    out = dict(trouble=runs.trouble(res), bad=sh.bad, n={})
    if res.status == "ok":
        before = [nsref.key(p) for p in res.cp.NS.nested_samples]
        res.cp.get_nested_samples(filename=None)
        res.cp.get_posterior_samples(filename=None)
        scan()
        out["n"] = dict(points_watched=len(sh.seen), comparisons=sh.checks)
        out["trace"] = sim.trace_hash
    shutil.rmtree(folder, ignore_errors=True)
    return out


def prop_case(case):
    from cpnest import proposal as P
    from cpnest.parameter import LivePoint
    r = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"]); random.seed(case["seed"])
    model = runs.make(case["model"])
    sh = Shadow()
    pts = []
    for x in model.prior(40, r):
        p = model.point(x)
        p.logP, p.logL = model.log_prior(p), model.log_likelihood(p)
        pts.append(p)
    n = 0
    made = [P.EnsembleWalk(), P.EnsembleStretch(), P.DifferentialEvolution(), P.EnsembleEigenVector(), P.DefaultProposalCycle(),
            P.HamiltonianProposalCycle(model=model), P.LeapFrog(model=model), P.EnsembleSliceDifferential(), P.EnsembleSliceGaussian(), P.EnsembleSliceCorrelatedGaussian(),
            P.EnsembleSliceProposalCycle()]
    for pr in made:
        ens = list(pts)
        pr.set_ensemble(ens)
        held = []
        for i in range(case["n"] if not isinstance(pr, P.HamiltonianProposal) else 6):
            if hasattr(pr, "get_direction"):
                new = pr.get_direction(mu=1.3)
                if isinstance(new, LivePoint):
                    held.append(new)
            else:
                new = pr.get_sample(pts[r.randint(len(pts))].copy())
                held.append(new)
            for p in pts + held:
                sh.look("ensemble" if p in pts else "proposed points", p)
            n += 1
        if len(ens) != len(pts) or any(a is not b for a, b in zip(ens, pts)):
            sh.bad.append(("ensemble-list", "%s changes the list of ensemble points" % type(pr).__name__))
        if any(h is p for h in held for p in pts):
            sh.bad.append(("alias", "%s proposes a point of the ensemble itself" % type(pr).__name__))
    return dict(trouble=None, bad=sh.bad, n=dict(proposals=n, comparisons=sh.checks), trace=case["seed"])


def one(case):
    return run_case(case) if case["kind"] == "run" else prop_case(case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=400)):
        chk.case((runs.describe(case), v.get("trace")), True, sample=dict(case=runs.describe(case), observed=v["n"]))
    chk.require("points_watched", 5000)
    chk.require("comparisons", 100000)
    chk.require("proposals", 1000)
