"""C02: posterior samples of complete simulated runs, and the prior chains that come with them, against exact draws."""
import collections, random
import numpy as np
from vlib import evid, runs
from vlib.check import forked

RULE = ("one case = one complete (possibly interrupted and resumed) run of the real code on a model with exact posterior and prior; distinct = distinct recorded trace; "
        "non-trivial = the run returned at least 50 posterior samples or 80 prior samples")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: samples returned by complete runs under controlled schedules, ranked among exact draws; mean, spread and tails of the ranks tested at 4.5 sigma"
NOTE = ("Statistical: rank statistics (mean, spread, lower and upper tenth) of every parameter and of the log-likelihood are tested over the runs on one model and over all runs of one kind, "
        "at 4.5 sigma plus the small bias that chains of finite length have by nature (calibrated over 768 runs). Mean ranks wrong by less than about 0.05 (a sixth of a standard deviation) are not seen.")
ASSUMPTIONS = ["4.5 sigma deviations do not occur by chance", "numbers of samplers up to 4 % of the live points", "chains of the sampled lengths mix on the sampled models"]
VAR = np.array([1 / 12., 1 / 180., .09, .09])            # of one rank
ALLOW = np.array([.025, .005, .02, .02])                 # bias of chains of finite length, per model (calibrated: 0.013, 0.002, 0.008, 0.012)
ALLOW_PRIOR = np.array([.03, .006, .025, .025])
INFL, INFL_L = 1.7, 2.6                                  # variance of a run's mean, times the number of its samples (calibrated: at most 1.77, 2.54 for log-likelihoods)

PRIOR = [("pow_prior", {}), ("gauss_prior", {}), ("exp_prior", {}), ("Disc", {}), ("gauss_prior", dict(d=3, sp=1.5))]


def cases(chk):
    r = random.Random(chk.seed * 236887691 + 2)
    out = []
    for i in range(40 if chk.thorough else 8):
        for c in range(len(evid.CELLS)):
            case = evid.case_of(c, i, r, resumed=i % 4 == 3)
            case["kw"]["verbose"] = 3 * ((i + c) % 4 == 1)
            if i % 8 == 6:
                case.update(real=True, policy="of the system")
            if case.get("interrupts") and (i + c) % 2:
                # the number of live points is that of the checkpoint, whatever is asked for
                case["resume_kw"] = dict(nlive=[25, 500, 1000][(i + c) // 2 % 3])
                case["kw"]["nlive"] = 100
            out.append(dict(case, scratch=chk.scratch))
    for i in range(30 if chk.thorough else 8):
        for c, (name, mk) in enumerate(PRIOR):
            n = [1, 2, 3][(i + c) % 3]
            kw = dict(nthreads=n, nlive=[100, 150][i % 2], maxmcmc=300, poolsize=100, verbose=[0, 3][i // 2 % 2], prior_sampling=True)
            if i % 4 == 1:
                kw["nslice"] = n
            if i % 4 == 3 and name != "Disc":
                kw["nhamiltonian"] = 1
            case = dict(cell="prior %d" % c, model=(name, mk), kw=kw, policy=runs.POLICIES[(i + c) % len(runs.POLICIES)], seed=r.randrange(1, 10 ** 6), budget=400000)
            out.append(dict(case, scratch=chk.scratch))
    out.sort(key=lambda c: -(5 * ("nhamiltonian" in c["kw"]) + ("nslice" in c["kw"])))
    return out


class Tests:
    def __init__(self, chk):
        self.chk, self.groups = chk, collections.OrderedDict()

    def add(self, what, allowed, infl, stats, count, case):
        self.groups.setdefault(what, []).append((np.array(stats), infl * VAR / count, np.array(allowed), case))

    def conclude(self):
        worst = []
        for what, v in self.groups.items():
            if len(v) < 4:
                continue
            m = np.mean([x[0] for x in v], axis=0)
            se = np.sqrt(np.sum([x[1] for x in v], axis=0)) / len(v)
            lim = v[0][2] + 4.5 * se
            for k, name in enumerate(evid.STATS):
                self.chk.count("tests")
                worst.append((round(float(abs(m[k]) / lim[k]), 2), what, name, round(float(m[k]), 4), len(v)))
                if not abs(m[k]) <= lim[k]:
                    self.chk.violation("distribution", "%s: the %s of the ranks deviates by %.4f over %d runs (allowed %.4f), e.g. %s" % (
                        what, dict(mean="mean", spread="spread", lower="share in the lower tenth", upper="share in the upper tenth")[name], m[k], len(v), lim[k],
                        runs.describe(evid.shown(v[0][3]))), case=v[0][3])
        self.chk.extra["largest_deviations_of_limit"] = sorted(worst, reverse=True)[:10]


def run(chk):
    T = Tests(chk)
    for case, v in runs.conclude(chk, forked(cases(chk), evid.one, timeout=400), least=0.85):
        kw = case["kw"]
        kind = "Hamiltonian" if kw.get("nhamiltonian") else "slice" if kw.get("nslice") else "Metropolis-Hastings"
        desc = "%s %s, %s" % (case["model"][0], case["model"][1], kind)
        chk.case((str(case["cell"]), v["trace"]), v.get("npost", 0) >= 50 or v.get("nprior", 0) >= 80,
                 sample=dict(case=runs.describe(evid.shown(case)), posterior=v.get("npost"), prior=v.get("nprior")))
        if "stats" in v:
            chk.count("posterior_samples", v["npost"])
            if v["npost"] < 30:
                chk.violation("few-samples", "%s: only %d posterior samples" % (runs.describe(evid.shown(case)), v["npost"]), case=case)
                continue
            for n, s in v["stats"].items():
                infl = INFL_L if n == "logL" else INFL
                q = "log-likelihood" if n == "logL" else "parameter " + n
                T.add("posterior of %s of %s" % (q, desc), ALLOW, infl, s, v["npost"], case)
                q = "log-likelihood" if n == "logL" else "parameters"
                for g in ["all runs", "runs with %d samplers" % kw["nthreads"], "runs with %s samplers" % kind, "%s runs" % ("real" if case.get("real") else "resumed with another nlive" if v["n"]["resumed"] and case.get("resume_kw") else "resumed" if v["n"]["resumed"] else "uninterrupted"),
                          "runs at verbosity %d" % kw["verbose"]]:
                    # the parameters of one run are not independent
                    T.add("posterior of the %s, %s" % (q, g), .6 * ALLOW, infl * (1 if n == "logL" else len(v["stats"]) - 1), s, v["npost"], case)
        if "prior" in v:
            chk.count("prior_samples", v["nprior"])
            # neighbours in a chain saved by a sampler are correlated
            infl = 6.0 if kw["verbose"] >= 3 or kw.get("prior_sampling") else 2.0
            for n, s in v["prior"].items():
                q = "log-likelihood" if n == "logL" else "parameter " + n
                T.add("prior samples: %s of %s" % (q, desc), ALLOW_PRIOR, infl, s, v["nprior"], case)
                T.add("prior samples: %s, %s runs" % ("log-likelihood" if n == "logL" else "parameters", kind), .8 * ALLOW_PRIOR, infl * (1 if n == "logL" else len(v["prior"]) - 1), s, v["nprior"], case)
    T.conclude()
    chk.require("tests", 150)
    chk.require("resumed", 5)
    chk.require("real_processes", 6)
    chk.require("prior_samples", 5000)
