"""C08: when a run stops, and that starting, stepping and finishing always come to an end."""
import pickle, random, tempfile, shutil
import numpy as np
from vlib import runs, nsref
from vlib.sim import shared_index
from vlib.check import forked

RULE = ("one case = one complete simulated run with its own tolerance; non-trivial if unusable points were returned while the live set was filled, "
        "the tolerance is not the default, or samplers ran ahead on their own")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: stopping rule recomputed at every step from the message and shared-value log; deadlock detection from actor states"
NOTE = ("The remaining-evidence criterion is recomputed at every step of the explored runs; a hang is recognised from the state of all actors (nobody can "
        "send anything any more), not from a clock. Runs, schedules and hostile likelihoods are sampled by seed.")
ASSUMPTIONS = ["the best likelihood and the volume used by the criterion may lag by one step"]


def cases(chk):
    r = random.Random(chk.seed * 32452843 + 8)
    out = []
    tols = [0.1, 0.01, 1.0, 0.5, 3.0, 0.1]
    for i in range(100 if chk.thorough else 22):
        n = r.choice([1, 2, 3, 5])
        m = r.choice([("gauss", dict(d=2)), ("Disc", {}), ("gauss", dict(d=1, offset=1e4)), ("Staircase", {}), ("exp_prior", dict(offset=-500.0)), ("uneven", {})])
        out.append(dict(model=m, tol=tols[i % len(tols)], kw=dict(nthreads=n, nlive=r.choice([20, 30, 50]) if m[0] != "uneven" else 20, maxmcmc=30, poolsize=25,
                        nslice=r.choice([0, 0, 1, n])), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    # posteriors that are a very small part of the prior: runs of many times as many steps as live points
    for i in range(24 if chk.thorough else 6):
        n = [1, 2, 1, 3][i % 4]
        out.append(dict(model=("gauss", dict(d=[1, 2, 3][i % 3], sigma=10.0 ** -[30, 25, 12][i % 3])), tol=[0.1, 0.5][i % 2], budget=250000,
                        kw=dict(nthreads=n, nlive=[n + 4, 10][i % 2], maxmcmc=[40, 80][i % 2], poolsize=25, nslice=[0, 0, 0, 1][i % 4]), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    # hostile starts: many unusable points, samplers that hardly move
    for i in range(60 if chk.thorough else 24):
        n = r.choice([1, 2, 3, 4, 7])
        m = [("HoleL", dict(cut=0.9)), ("NanL", dict(cut=0.7)), ("HoleL", dict(cut=0.5)), ("NanL", dict(cut=0.95))][i % 4]
        out.append(dict(model=m, expect_end=False, budget=20000, tol=r.choice([0.1, 3.0]), kw=dict(nthreads=n, nlive=r.choice([n + 1, 10, 23]), maxmcmc=r.choice([1, 2, 5, 10]), poolsize=r.choice([8, 12]),
                        nslice=r.choice([0, 0, 1])), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    # hardly a move is accepted
    for i in range(12 if chk.thorough else 4):
        n = [1, 2, 1, 3][i % 4]
        out.append(dict(model=("Comb", {}), tol=[0.1, 0.5][i % 2], kw=dict(nthreads=n, nlive=n + 8, maxmcmc=[100, 60][i % 2], poolsize=10), budget=250000,
                        policy=r.choice(runs.POLICIES[:2]), seed=r.randrange(1, 10 ** 6)))
    for i in range(30 if chk.thorough else 4):
        n = 1 + i % 3
        out.append(dict(model=("gauss", dict(d=2)), tol=[0.1, 1.0][i % 2], kw=dict(nthreads=n, nlive=20, maxmcmc=12, poolsize=30, nhamiltonian=1, nslice=int(n == 3)),
                        policy=[dict(freerun=0.6), dict(preempt=0.3, freerun=0.3)][i % 2], seed=r.randrange(1, 10 ** 6)))
    # prior sampling has its own way of finishing
    for i in range(20 if chk.thorough else 6):
        n = 1 + i % 4
        out.append(dict(model=("gauss", dict(d=2)), tol=0.1, kw=dict(nthreads=n, nlive=r.choice([5, 20, 33]), maxmcmc=8, poolsize=10, prior_sampling=True,
                        nslice=i % 2), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def one(case):
    folder = tempfile.mkdtemp(prefix="c08-", dir=case["scratch"])
    starved = []
    out_req = {}

    def after_send(sim, conn, obj):
        if conn.side == 0 and hasattr(obj, "values"):
            out_req[conn.index] = out_req.get(conn.index, 0) + 1

    def before_recv(sim, conn):
        if conn.side == 0:
            out_req[conn.index] = out_req.get(conn.index, 0) - 1
            if out_req[conn.index] < 0:
                starved.append(conn.index)

    def set_tol(cp):
        cp.NS.tolerance = case["tol"]

    res, sim, model = runs.simulate(case, folder, hooks=dict(after_send=[after_send][0], before_recv=before_recv), before_run=set_tol)
    out = dict(trouble=None, bad=[], n={})
    bad = out["bad"]
    if res.status == "deadlock":
        bad.append(("hang", "nobody can go on: " + res.error))
    elif res.status == "budget":
        # more scheduling steps than any such run can need
        if case.get("expect_end", True):
            bad.append(("no-end", "still going after %s" % res.error))
        else:
            out["trouble"] = runs.trouble(res)
    elif res.status != "ok":
        out["trouble"] = runs.trouble(res)
    else:
        if res.leftover:
            bad.append(("samplers-left", "after the run %s have not ended" % (res.leftover,)))
        elif any(c != 0 for c in res.exitcodes):
            bad.append(("sampler-failed", "exit codes %s %s" % (res.exitcodes, res.worker_errors)))
    if starved:
        bad.append(("unasked", "the main process waits for a reply on pipe %d that it has not asked for" % starved[0]))
    if res.status == "ok" and not case["kw"].get("prior_sampling"):
        n, N = res.kw["nthreads"], res.kw["nlive"]
        rep = [t[3] for _, t in runs.replies(sim)]
        ref = nsref.Reference(rep, N, n)
        try:
            ref.run()
        except nsref.Fault as e:
            bad.append(("step-incomplete", str(e)))
        else:
            # shared best likelihood at the last reply of every step
            vi = shared_index(res.cp.manager.logLmax)
            best, at, cur, k = -np.inf, [], -np.inf, 0
            bounds = []
            for e in sim.events:
                if e[0] == "set" and e[2] == vi:
                    cur = e[4]
                if e[0] == "recv" and e[1] == 0 and e[3] == 0:
                    at.append(cur)
            # index of the reply that completed the fill and each step
            adm, ends, thr_i = 0, [], 0
            for i, p in enumerate(rep):
                if adm < N:
                    ok = p.logP > -np.inf and p.logL > -np.inf
                else:
                    ok = p.logL > ref.step_logl[(adm - N) // n]
                if ok:
                    adm += 1
                    if adm >= N and (adm - N) % n == 0:
                        ends.append(i)
            tol = case["tol"]
            early = late = None
            for s in range(ref.steps):
                z, xb, xa = ref.snap[s]
                lo, hi = at[ends[s]], at[ends[s + 1]]
                if s < ref.steps - 1 and not nsref.dz(z, hi, xb) > tol - 1e-9:
                    late = late or (s, nsref.dz(z, hi, xb))
                if s == ref.steps - 1 and not nsref.dz(z, lo, xa) <= tol + 1e-9:
                    early = (s, nsref.dz(z, lo, xa))
            if not ref.steps:
                bad.append(("stops-early", "the run ends without a single step, tolerance %g" % tol))
            if late:
                bad.append(("stops-late", "step %d leaves dlogZ <= %.6g, tolerance %g, but %d more steps follow" % (late[0] + 1, late[1], tol, ref.steps - 1 - late[0])))
            if early:
                bad.append(("stops-early", "the run ends after step %d with dlogZ >= %.6g, tolerance %g" % (early[0] + 1, early[1], tol)))
            out["n"] = dict(criterion_evaluations=ref.steps, unusable_when_filling=ref.fill_skipped)
            out["trace"] = sim.trace_hash
    out["n"]["idle_steps_of_samplers"] = sum(1 for e in sim.events if e[0] == "idle")
    out["n"]["replies"] = sum(1 for e in sim.events if e[0] == "recv" and e[1] == 0)
    shutil.rmtree(folder, ignore_errors=True)
    return out


def top_plateau(case):
    """known finding: nothing is strictly better than the maximum"""
    folder = tempfile.mkdtemp(prefix="c08-", dir=case["scratch"])
    res, sim, model = runs.simulate(case, folder)
    return res.status, res.error


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=600)):
        chk.case((runs.describe(case), case["tol"], v.get("trace")), v["n"].get("unusable_when_filling") or case["tol"] != 0.1 or v["n"]["idle_steps_of_samplers"],
                 sample=dict(case=runs.describe(case), tolerance=case["tol"], observed=v["n"]))
    for o in forked([dict(model=("constant", {}), kw=dict(nthreads=2, nlive=10, maxmcmc=3, poolsize=8), policy={}, seed=1, budget=3000, scratch=chk.scratch)], top_plateau):
        if o.status == "ok" and o.value[0] == "budget":
            chk.violation("top-plateau-never-ends", "a constant likelihood is still being sampled after %s" % o.value[1])
    chk.require("criterion_evaluations", 500)
    chk.require("unusable_when_filling", 100)
    chk.require("idle_steps_of_samplers", 100)
