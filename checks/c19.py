"""C19: the shared best likelihood under preempted updates, and against every point accepted."""
import collections, json, os, pickle, random, subprocess, sys, tempfile, shutil
import numpy as np
from vlib import runs, nsref
from vlib.sim import shared_index
from vlib.check import forked

RULE = ("one case = one complete simulated run with scheduling points inside every access to the shared values, or one run with real processes; "
        "non-trivial if updates of several samplers interleaved")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every write of the shared maximum recorded under adversarial preemption, checked for monotonicity and coverage"
NOTE = ("All writes of the explored runs are observed, with preemption between the read and the write of an update; schedules are sampled by seed. Real-process runs "
        "check the final value only.")
ASSUMPTIONS = ["a switch between two processes is possible at each access to a shared value and at each pipe operation"]


def cases(chk):
    r = random.Random(chk.seed * 67867967 + 19)
    out = []
    mods = [("gauss", dict(d=2)), ("Disc", {}), ("Staircase", {}), ("gauss", dict(d=1, offset=500.0)), ("exp_prior", dict(offset=-700.0)), ("HoleL", {}), ("NanL", {}), ("gauss", dict(d=2, offset=3e9)), ("Staircase", dict(offset=-2e7))]
    for i in range(90 if chk.thorough else 27):
        n = r.choice([2, 3, 4, 6])
        sl = [0, n, 1, r.randrange(n + 1)][i % 4]
        out.append(dict(kind="sim", model=mods[i % len(mods)], kw=dict(nthreads=n, nlive=r.choice([n + 3, 20, 40]), maxmcmc=r.choice([5, 15]), poolsize=r.choice([10, 20]), nslice=sl,
                        prior_sampling=i % 7 == 6),
                        policy=r.choice([dict(preempt=0.3), dict(preempt=0.5), dict(preempt=0.3, freerun=0.2), dict(preempt=0.5, skew=0.5)]), budget=150000, seed=r.randrange(1, 10 ** 6)))
    for i in range(12 if chk.thorough else 3):
        out.append(dict(kind="sim", model=("gauss", dict(d=2)), kw=dict(nthreads=2 + i % 2, nlive=18, maxmcmc=10, poolsize=24, nhamiltonian=1 + i % 2, nslice=i % 2),
                        policy=dict(preempt=0.4, freerun=0.1), budget=150000, seed=r.randrange(1, 10 ** 6)))
    for i in range(6 if chk.thorough else 2):
        out.append(dict(kind="real", model=("gauss", dict(d=2)), kw=dict(nthreads=4, nlive=40, maxmcmc=20, poolsize=30, nslice=2 * (i % 2), verbose=3), policy={}, seed=r.randrange(1, 10 ** 6)))
    # crashes soon after the start, while the maximum still rises and the samplers' checkpoints are newer than the integrator's
    for i in range(120 if chk.thorough else 30):
        n = 1 + i % 3
        ints = [dict(kind=r.choice(["signal", "crash", "crash"]), sig="SIGTERM", ops=r.randrange(30, 60 + 40 * n), lines=0) for _ in range(r.choice([1, 2]))]
        out.append(dict(kind="resumed", model=mods[i % len(mods)], kw=dict(nthreads=n, nlive=n + 5, maxmcmc=20, poolsize=8, nslice=[0, 0, 1, n][i % 4], periodic_checkpoint_interval=1e-9),
                        interrupts=ints, policy=r.choice([dict(freerun=.3), dict(preempt=.3, freerun=.2), {}]), budget=20000, seed=r.randrange(1, 10 ** 6)))
    # interrupted by signals only: the best likelihood is carried over
    for i in range(60 if chk.thorough else 15):
        n = 1 + i % 3
        ints = [dict(kind="signal", sig="SIGTERM", ops=r.randrange(30, 60 + 40 * n), lines=0) for _ in range(1 + i % 2)]
        out.append(dict(kind="resumed", model=mods[i % len(mods)], kw=dict(nthreads=n, nlive=n + 4, maxmcmc=20, poolsize=8, nslice=[0, 0, 1, n][i % 4]),
                        interrupts=ints, policy=r.choice([dict(freerun=.3), dict(preempt=.3, freerun=.2), {}]), budget=20000, seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def sim_case(case):
    folder = tempfile.mkdtemp(prefix="c19-", dir=case["scratch"])
    res, sim, model = runs.simulate(case, folder)
    out = dict(trouble=runs.trouble(res), bad=[], n={})
    if res.status == "ok":
        bad = out["bad"]
        vi = shared_index(res.cp.manager.logLmax)
        top, writes, writers = -np.inf, 0, []
        for e in sim.events:
            if e[0] == "set" and e[2] == vi:
                writes += 1
                writers.append(e[1])
                if e[4] < top or e[4] != e[4]:
                    bad.append(("decreases", "sampler %d writes %r after %r had been reached" % (e[1], e[4], top)))
                top = max(top, e[4])
        final = res.cp.manager.logLmax.value
        got = [t[3] for _, t in runs.replies(sim)]
        over = [p.logL for p in got if p.logL > final]
        if over:
            bad.append(("reply-above", "a sampler returned logL %r, the maximum ends at %r" % (max(over), final)))
        kept = 0
        for i, s in enumerate(runs.samplers(res.cp)):
            pts = list(s.samples) + list(s.evolution_points)
            kept += len(pts)
            over = [x.logL for x in pts if x.logL > final]
            if over:
                bad.append(("chain-above", "sampler %d (%s) accepted logL %r, the maximum ends at %r" % (i, type(s).__name__, max(over), final)))
        ev = [f for f in os.listdir(folder) if f.endswith("_evidence.txt")]
        if ev:
            a = [float(x) for x in open(os.path.join(folder, ev[0])).read().split("\n")[1].split()]
            m = max(p.logL for p in res.cp.NS.nested_samples)
            if a[1] < m - 6e-6:
                bad.append(("file-below", "the evidence file's maximum %r is below a recorded sample's %r" % (a[1], m)))
        else:
            bad.append(("file-missing", "no evidence file"))
        out["n"] = dict(writes=writes, accepted_points=kept, writer_changes=sum(1 for a, b in zip(writers, writers[1:]) if a != b), switches=sim.switches)
        out["trace"] = sim.trace_hash
    shutil.rmtree(folder, ignore_errors=True)
    return out


def real_case(case):
    import cpnest
    folder = tempfile.mkdtemp(prefix="c19-", dir=case["scratch"])
    model = runs.make(case["model"])
    kw = dict(case["kw"], output=folder, seed=case["seed"] % 1000 + 1)
    cp = cpnest.CPNest(model, **kw)
    cp.run()
    final = cp.manager.logLmax.value
    bad = []
    chain = cp.mcmc_samples
    m = max(float(np.max(chain["logL"])), max(p.logL for p in cp.NS.nested_samples))
    if m > final:
        bad.append(("chain-above", "a sampler accepted logL %r, the maximum ends at %r" % (m, final)))
    ev = [f for f in os.listdir(folder) if f.endswith("_evidence.txt")][0]
    a = [float(x) for x in open(os.path.join(folder, ev)).read().split("\n")[1].split()]
    if a[1] < m - 6e-6:
        bad.append(("file-below", "the evidence file's maximum %r is below a recorded sample's %r" % (a[1], m)))
    shutil.rmtree(folder, ignore_errors=True)
    return dict(trouble=None, bad=bad, n=dict(real_runs=1, accepted_points=len(chain)), trace=0)


def resumed_case(case):
    from vlib import history as H
    folder = tempfile.mkdtemp(prefix="c19-", dir=case["scratch"]) + "/out"
    bad, n, trace = [], dict(resumes=0, accepted_points=0, writes=0, carried_over=0), []
    floor = -np.inf      # the best likelihood when a signal asked for the checkpoint that the run is resumed from

    def held(ds, d):
        pts = [(k[1], "sampler %d (%s)" % (i, s["kind"])) for i, s in enumerate(ds) for k in s["ensemble"] + s["chain"]]
        pts += [(k[1], "the integrator") for k in d["live"] + d["recorded"] if k]
        return max(pts) if pts else (-np.inf, "")
    for st in H.play(case, folder):
        trace.append(st.sim.trace_hash)
        if st.index and st.res.status != "crash":
            n["resumes"] += 1
        m, who = held(st.start_samplers, st.start_ns)
        if st.start_max < m:
            bad.append(("resumed-below", "stage %d starts with the best likelihood %r, %s holds a point with %r" % (st.index, st.start_max, who, m)))
        if st.start_max < floor:
            bad.append(("forgotten", "stage %d starts with the best likelihood %r, which was %r when the run was interrupted" % (st.index, st.start_max, floor)))
        # a signal in the moment after sampling and before the end finds nothing to checkpoint
        f = "nested_sampler_resume.pkl"
        if st.fired and st.res.status == "exit" and st.interrupt.best is not None and st.files_after.get(f) != st.files_before.get(f):
            floor = max(floor, st.interrupt.best)
            n["carried_over"] += np.isfinite(floor)
        top, vi = st.start_max, shared_index(st.cp.manager.logLmax)
        for e in st.sim.events:
            if e[0] == "set" and e[2] == vi and e[1] != 0:
                n["writes"] += 1
                if e[4] < top or e[4] != e[4]:
                    bad.append(("decreases", "stage %d: sampler %d writes %r after %r had been reached" % (st.index, e[1], e[4], top)))
                top = max(top, e[4])
        fin = st.cp.manager.logLmax.value
        if st.res.status in ("ok", "exit"):
            m, who = held(st.end_samplers, st.end_ns)
            n["accepted_points"] += sum(len(s["chain"]) for s in st.end_samplers)
            if fin < m:
                bad.append(("chain-above", "stage %d: %s accepted logL %r, the maximum ends at %r" % (st.index, who, m, fin)))
        elif st.res.status != "killed":
            shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
            return dict(trouble="%s: %s" % (st.res.status, st.res.error), bad=bad, n=n, trace=0)
    shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
    return dict(trouble=None, bad=bad, n=n, trace=tuple(trace))


def one(case):
    if case["kind"] == "resumed":
        return resumed_case(case)
    return sim_case(case) if case["kind"] == "sim" else real_case(case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=300)):
        chk.case((runs.describe(case), v.get("trace")), v["n"].get("writer_changes", 0) > 2 or case["kind"] == "real",
                 sample=dict(case=runs.describe(case), observed=v["n"]))
    chk.require("writes", 200)
    chk.require("writer_changes", 30)
    chk.require("carried_over", 6)
    chk.require("accepted_points", 5000)
    chk.require("resumes", 5)
