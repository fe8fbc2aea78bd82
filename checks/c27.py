"""C27: chain lengths and acceptance fractions of driven samplers and of whole runs, against counted proposals."""
import random, tempfile, shutil
import numpy as np
from vlib import runs, nsref, drive
from vlib.check import forked

RULE = ("one case = one sampler driven for many samples with counted proposals, or one complete simulated run; non-trivial if the length limit was reached "
        "or the estimate changed")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: proposals, samples and acceptance counted at the proposal and model boundaries and compared with what the sampler reports"
NOTE = "Every sample of the explored chains is judged; configurations, thresholds and acceptance histories are sampled by seed."
ASSUMPTIONS = ["a chain move of a Metropolis-Hastings sampler is one call of its proposal, of a slice sampler one request for a direction"]


def cases(chk):
    r = random.Random(chk.seed * 141650939 + 27)
    out = []
    mods = [("gauss", dict(d=2)), ("Disc", {}), ("uneven", {}), ("HoleL", dict(cut=0.8)), ("gauss", dict(d=1)), ("Correlated", {}), ("pow_prior", {}), ("Staircase", {})]
    for i in range(120 if chk.thorough else 36):
        out.append(dict(kind="drive", model=mods[i % len(mods)], sampler=["mhs", "sli", "mhs", "sli", "mhs", "hmc"][i % 6] if i % 12 != 11 else "mhs",
                        kw={}, maxmcmc=r.choice([1, 2, 5, 9, 11, 30, 100, 300]), poolsize=r.choice([8, 20, 60]), n=120, seed=r.randrange(1, 10 ** 6)))
        c = out[-1]
        if c["sampler"] == "hmc":
            c.update(model=("gauss_prior", {}), poolsize=30, n=25)
    for i in range(30 if chk.thorough else 8):
        n = r.choice([1, 2, 4])
        out.append(dict(kind="run", model=mods[i % 5] if mods[i % 5][0] not in ("uneven", "HoleL") else mods[0], kw=dict(nthreads=n, nlive=r.choice([n + 4, 30]), maxmcmc=r.choice([5, 12, 40]), poolsize=r.choice([8, 20]), nslice=[0, n, 1][i % 3]),
                        policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


class Counted:
    """wraps the proposal object so that every call is counted"""
    def __init__(self, p):
        self.calls = 0
        inner = p.get_sample

        def get_sample(old, **kw):
            self.calls += 1
            return inner(old, **kw)
        p.get_sample = get_sample
        if hasattr(p, "get_direction"):
            ind = p.get_direction

            def get_direction(*a, **kw):
                self.calls += 1
                return ind(*a, **kw)
            p.get_direction = get_direction


def drive_case(case):
    from cpnest import proposal as P
    model = runs.make(case["model"])
    kind, M = case["sampler"], case["maxmcmc"]
    prop = dict(mhs=P.DefaultProposalCycle, sli=P.EnsembleSliceProposalCycle, hmc=lambda: P.HamiltonianProposalCycle(model=model))[kind]()
    c = Counted(prop)
    s, man = drive.sampler(kind, model, M, case["poolsize"], case["seed"], proposal=prop)
    bad, n = [], dict(samples=0, moves=0, limit_reached=0, estimates=0, accepted_zero=0)
    est0 = (s.Nmcmc, s.Nmcmc_exact)
    if not (s.Nmcmc > 0 and np.isfinite(s.Nmcmc)):
        bad.append(("estimate", "the initial estimate of the chain length is %r (maxmcmc %d)" % (s.Nmcmc, M)))
    s.reset()
    r = random.Random(case["seed"])
    start_acc, start_cnt = s.mcmc_accepted, s.mcmc_counter
    total, taken = 0, 0
    top = M + (1 if kind == "sli" else 0)
    zero_run = 0

    def estimate_ok(where):
        if not (np.isfinite(s.Nmcmc) and s.Nmcmc >= 1 and np.isfinite(s.Nmcmc_exact)):
            bad.append(("estimate", "%s: estimated chain length %r (%r), maxmcmc %d" % (where, s.Nmcmc, s.Nmcmc_exact, M)))
    estimate_ok("after initialisation")
    for i in range(case["n"]):
        ls = sorted(p.logL for p in s.evolution_points if p.logL == p.logL)
        k = ls[r.randrange(len(ls))] if kind != "hmc" else ls[len(ls) // 3]
        thr = r.choice([-np.inf, k, ls[0]] + ([ls[-1]] if kind != "hmc" else []))
        if kind == "hmc":
            thr = min(thr, min(p.logL for p in s.evolution_points))
        before, want = c.calls, s.Nmcmc
        a0, c0 = s.mcmc_accepted, s.mcmc_counter
        N, p = next(s.yield_sample(thr))
        made = c.calls - before
        n["samples"] += 1
        n["moves"] += made
        if kind != "hmc":
            if N != made:
                bad.append(("reported-length", "%s reports %r moves, made %d" % (kind, N, made)))
            if made > top:
                bad.append(("limit", "%s made %d moves between two samples, maxmcmc is %d" % (kind, made, M)))
            if made < min(want, M):
                bad.append(("short-chain", "%s made %d moves, estimate %d, maxmcmc %d" % (kind, made, want, M)))
            n["limit_reached"] += made >= M
        acc, cnt = s.mcmc_accepted - a0, s.mcmc_counter - c0
        total += N
        n["accepted_zero"] += s.sub_acceptance == 0
        if not (0 <= s.sub_acceptance <= 1 and 0 <= s.acceptance <= 1):
            bad.append(("fraction-range", "%s: acceptance %r, %r" % (kind, s.acceptance, s.sub_acceptance)))
        if cnt != N or abs(s.sub_acceptance - acc / float(N)) > 1e-12 or abs(s.acceptance - s.mcmc_accepted / float(s.mcmc_counter)) > 1e-12:
            bad.append(("fraction", "%s: %d accepted of %d, reported %r; %d of %d overall, reported %r" % (kind, acc, N, s.sub_acceptance, s.mcmc_accepted, s.mcmc_counter, s.acceptance)))
        if i % 5 == 0:
            s.estimate_nmcmc_on_the_fly()
            n["estimates"] += 1
            estimate_ok("on the fly")
            if s.Nmcmc > max(M, 5):
                bad.append(("estimate-above", "estimate %d above maxmcmc %d" % (s.Nmcmc, M)))
        if i % 23 == 7:
            s.proposal.set_ensemble(s.evolution_points)
            s.estimate_nmcmc()
            n["estimates"] += 1
            estimate_ok("from the chain")
        if bad:
            break
    return dict(trouble=None, bad=bad, n=n, trace=(case["sampler"], M, total))


def accepted_case(case):
    """moves accepted, counted from the chain itself: consecutive points differ exactly when a move was accepted"""
    from cpnest import proposal as P
    model = runs.make(case["model"])
    s, man = drive.sampler("mhs", model, case["maxmcmc"], case["poolsize"], case["seed"])
    s.reset()
    bad, tot = [], 0
    from collections import deque
    for i in range(60):
        s.samples = []
        thr = sorted(p.logL for p in s.evolution_points)[len(s.evolution_points) // 3]
        start = nsref.key(s.evolution_points[0])
        a0 = s.mcmc_accepted
        N, p = next(s.yield_sample(thr))
        ch = [start] + [nsref.key(x) for x in s.samples]
        moved = sum(1 for a, b in zip(ch, ch[1:]) if a != b)
        tot += N
        if len(s.samples) != N:
            bad.append(("chain-record", "%d moves, %d points in the chain" % (N, len(s.samples))))
        if moved != s.mcmc_accepted - a0 or abs(s.sub_acceptance - moved / float(N)) > 1e-12:
            bad.append(("accepted", "%d moves changed the point, %d counted as accepted, fraction %r of %d" % (moved, s.mcmc_accepted - a0, s.sub_acceptance, N)))
        if bad:
            break
    return dict(trouble=None, bad=bad, n=dict(counted_moves=tot), trace=tot)


def run_case(case):
    folder = tempfile.mkdtemp(prefix="c27-", dir=case["scratch"])
    res, sim, model = runs.simulate(case, folder)
    out = dict(trouble=runs.trouble(res), bad=[], n={})
    if res.status == "ok":
        M, n = res.kw["maxmcmc"], res.kw["nthreads"]
        nsl = res.kw.get("nslice", 0)
        cnt = 0
        for pipe, t in runs.replies(sim):
            cnt += 1
            # the pipe a sampler got need not be its position in the pool
            top = M + (1 if nsl else 0)
            if not 1 <= t[2] <= top:
                out["bad"].append(("limit", "a sampler reports %r moves, maxmcmc is %d" % (t[2], M)))
            if not (0 <= t[0] <= 1 and 0 <= t[1] <= 1):
                out["bad"].append(("fraction-range", "a sampler reports acceptance %r, %r" % (t[0], t[1])))
            k = t[1] * t[2]
            if abs(k - round(k)) > 1e-6:
                out["bad"].append(("fraction", "acceptance %r of %d moves is no count" % (t[1], t[2])))
        for s in runs.samplers(res.cp):
            if not (0 <= s.mcmc_accepted <= s.mcmc_counter and s.Nmcmc >= 1 and np.isfinite(s.Nmcmc_exact)):
                out["bad"].append(("estimate", "%s ends with Nmcmc %r, %d accepted of %d" % (type(s).__name__, s.Nmcmc, s.mcmc_accepted, s.mcmc_counter)))
        out["n"] = dict(replies=cnt)
        out["trace"] = sim.trace_hash
    shutil.rmtree(folder, ignore_errors=True)
    return out


def one(case):
    return dict(drive=drive_case, run=run_case, acc=accepted_case)[case["kind"]](case)


def run(chk):
    cs = cases(chk)
    cs += [dict(c, kind="acc") for c in cs if c["kind"] == "drive" and c["sampler"] == "mhs"][:12]
    for case, v in runs.conclude(chk, forked(cs, one, timeout=300)):
        chk.case((runs.describe(case), case["kind"], v.get("trace")), True, sample=dict(case=runs.describe(case), kind=case["kind"], observed=v["n"]))
    for k, least in dict(samples=1500, moves=10000, limit_reached=100, estimates=300, replies=300, counted_moves=2000).items():
        chk.require(k, least)
