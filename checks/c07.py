"""C07: the evidence state against the volumes and integral nested sampling assigns to the recorded sequence."""
import os, random, re, tempfile, shutil
import numpy as np
from vlib import runs, nsref
from vlib.check import forked

RULE = ("one case = one complete simulated run, or one synthetic log-likelihood sequence fed to the real integrator; non-trivial if the sequence has ties, "
        "an offset beyond 1000, or batches of more than one point")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: independent recomputation of volumes, evidence and information from the recorded sequence of each run"
NOTE = ("Every reported number of the explored runs is recomputed from the message log with an independent integrator, to near machine precision; sequences "
        "and offsets are sampled by seed, up to magnitudes where doubles still resolve the differences.")
ASSUMPTIONS = []


def cases(chk):
    r = random.Random(chk.seed * 15485863 + 7)
    out = []
    offs = [0.0, -1e5, 1e5, 2e8, -1e-3, 750.0, -4e3]
    for i in range(100 if chk.thorough else 21):
        off = offs[i % len(offs)]
        n = r.choice([1, 1, 2, 3, 5])
        m = r.choice([("gauss", dict(d=2, offset=off)), ("Staircase", dict(offset=off)), ("exp_prior", dict(offset=off)), ("Disc", dict(offset=off))])
        out.append(dict(kind="run", model=m, kw=dict(nthreads=n, nlive=r.choice([n + 3, 20, 45, 80]), maxmcmc=r.choice([10, 25]), poolsize=r.choice([12, 30]),
                        nslice=r.choice([0, 0, 1]), verbose=i % 2), policy=r.choice(runs.POLICIES[:3]), seed=r.randrange(1, 10 ** 6), scratch=chk.scratch))
    for i in range(40 if chk.thorough else 8):
        out.append(dict(kind="seq", model=("-", {}), kw={}, seed=r.randrange(1, 10 ** 6), scratch=chk.scratch, n=150))
    return out


def judge(bad, tag, logls, vols, logz, info, extra=""):
    z, h, first, zr = nsref.evidence(logls, vols)
    scale = max(1.0, np.max(np.abs([l for l in logls if np.isfinite(l)] or [1.0])))
    tol = 1e-9 + 4e-15 * scale * 10
    if not abs(logz - z) <= tol * 10:
        bad.append((tag + "evidence", "logZ %.15g reported, %.15g follows from the sequence (%d values) %s" % (logz, z, len(logls), extra)))
    dx0 = nsref.logsub(vols[0], vols[1])
    w0 = np.exp(logls[0] + dx0 - zr)
    lo, hi = h - w0 * max(0.0, -dx0), h
    htol = 1e-7 * (1 + abs(h)) + 1e-15 * scale * len(logls) * (1 + abs(h))
    if not lo - htol <= info <= hi + htol:
        bad.append((tag + "information", "H %.12g reported, between %.12g and %.12g follows from the sequence %s" % (info, lo, hi, extra)))


def one_run(case):
    folder = tempfile.mkdtemp(prefix="c07-", dir=case["scratch"])
    res, sim, model = runs.simulate(case, folder)
    out = dict(trouble=runs.trouble(res), bad=[], n={})
    if res.status == "ok":
        bad, n, N = out["bad"], res.kw["nthreads"], res.kw["nlive"]
        ref = nsref.Reference([t[3] for _, t in runs.replies(sim)], N, n)
        try:
            ref.run()
        except nsref.Fault as e:
            bad.append(("step-incomplete", str(e)))
            return out
        ns = res.cp.NS
        vols = nsref.volumes(ref.steps, n, N)
        judge(bad, "", ref.logl_sequence(), vols, ns.logZ, ns.state.info)
        if ns.state.logZ != ns.logZ:
            bad.append(("evidence-twice", "state.logZ %r, logZ %r" % (ns.state.logZ, ns.logZ)))
        lv = np.array(ns.state.log_vols)
        if lv.shape != vols.shape or not np.allclose(lv[:-1], vols[:-1], rtol=1e-12, atol=1e-10) or not np.isclose(lv[-1], vols[-1], atol=1e-9):
            i = int(np.argmax(~np.isclose(lv, vols, atol=1e-9))) if lv.shape == vols.shape else -1
            bad.append(("volumes", "%d volumes, %d expected; first difference at %d: %r instead of %r" % (len(lv), len(vols), i, lv[i], vols[i])))
        ll = list(ns.state.logLs)
        if ll[0] != -np.inf or ll[1:] != list(ref.logl_sequence()):
            bad.append(("sequence", "the state's likelihood sequence is not the recorded one (%d values, %d expected)" % (len(ll) - 1, len(ref.logl_sequence()))))
        ev = [f for f in os.listdir(folder) if f.endswith("_evidence.txt")]
        a = [float(x) for x in open(os.path.join(folder, ev[0])).read().split("\n")[1].split()]
        if abs(a[0] - ns.logZ) > 6e-6 + 1e-15 * abs(ns.logZ) or abs(a[2] - ns.state.info) > 6e-3:
            bad.append(("evidence-file", "file says %s, the run %r %r" % (a, ns.logZ, ns.state.info)))
        out["n"] = dict(steps=ref.steps, sequence_values=len(ll), shifted_runs=int(abs(case["model"][1].get("offset", 0)) > 1000))
        out["trace"] = (ref.steps, sim.trace_hash)
    shutil.rmtree(folder, ignore_errors=True)
    return out


def one_seq(case):
    from cpnest.NestedSampling import _NSintegralState as State
    from cpnest import nest2pos
    r = np.random.RandomState(case["seed"])
    bad, n = [], dict(sequences=0, sequence_values=0, shift_pairs=0)
    for _ in range(case["n"]):
        N, nrep = int(r.choice([2, 5, 20, 100, 1000, 5000])), int(r.choice([1, 1, 2, 3, 8]))
        nrep = min(nrep, N - 1)
        steps = int(r.choice([1, 2, 10, 100, 400]))
        kind = r.randint(5)
        l = np.sort(r.normal(size=steps + N if N <= 100 else steps + 20) * 10 ** r.uniform(-3, 3))
        if kind == 1:
            l = np.round(l)
        if kind == 2:
            l = l[-1] - np.sort(r.exponential(size=len(l)))[::-1] * 1e-9
        if kind == 3:
            l = np.sort(np.concatenate((l, [l[-1]] * 5)))
        if kind == 4:
            l = np.sort(l ** 3 / max(1.0, np.abs(l).max() ** 2))
        shift = r.choice([0.0, 1e5, -1e5, 3e3, -1e8, 1e10])
        res = []
        for s in (0.0, shift):
            ls = l + s
            st = State(N)
            last = min(N, len(ls) - steps)
            for i in range(steps):
                st.increment(ls[i], nreplace=nrep)
            for i in range(last):
                st.increment(ls[steps + i], nlive=N - i)
            st.finalise()
            v = [0.0]
            for i in range(steps):
                v.append(v[-1] - nrep / float(N))
            for i in range(last):
                v.append(v[-1] - 1.0 / (N - i))
            judge(bad, "integrator-", ls[:steps + last], np.array(v), st.logZ, st.info, "N=%d n=%d steps=%d kind=%d shift=%g" % (N, nrep, steps, kind, s))
            res.append((st.logZ, st.info))
            n["sequences"] += 1
            n["sequence_values"] += steps + last
        tol = 1e-8 + 1e-14 * abs(shift) * 10
        if not abs(res[1][0] - res[0][0] - shift) <= tol * 10:
            bad.append(("shift", "adding %g changes logZ by %r" % (shift, res[1][0] - res[0][0])))
        n["shift_pairs"] += 1
        if not (np.isfinite(res[0]).all() and np.isfinite(res[1]).all()):
            bad.append(("not-finite", str(res)))
    return dict(trouble=None, bad=bad, n=n, trace=case["seed"])


def one(case):
    return one_run(case) if case["kind"] == "run" else one_seq(case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=400)):
        c = v["n"].get("sequences", 1)
        for i in range(c):
            chk.case((runs.describe(case), v.get("trace"), i), case["kind"] == "seq" or case["kw"]["nthreads"] > 1 or v["n"]["shifted_runs"],
                     sample=dict(case=runs.describe(case), observed=v["n"]) if i == 0 else None)
    chk.require("steps", 500)
    chk.require("sequences", 500)
    chk.require("shifted_runs", 3)
