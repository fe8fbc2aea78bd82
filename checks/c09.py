"""C09: runs are interrupted at chosen lines and messages by real signals (or a crash), resumed, interrupted again ... and compared with a reference replay."""
import os, pickle, random, shutil, tempfile, collections
import numpy as np
from vlib import runs, nsref, history as H
from vlib.check import forked

RULE = ("one case = one history of a simulated run: 1-4 interruptions (signal handled by the real handler, signal to all processes, or crash) at a line of package code, each followed by "
        "resuming, until the run completes; distinct = distinct histories (configuration, moments, message trace); non-trivial = at least one interruption hit and was resumed from a checkpoint")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring with injected signals: state before and after each resume compared, every stage replayed by a reference from its recorded messages"
NOTE = ("Signals are raised at a seeded line of the main process's package code and handled by the code's own handler; the samplers of a stage run under the deterministic scheduler. "
        "Interruptions after sampling is complete (nothing left to continue) and before the first step are not judged.")
ASSUMPTIONS = ["a crash is modelled by an exception that the run does not handle: what is on disk at that moment is what remains",
               "signals inside C code (pickling, file system calls) arrive at the next line"]


def cases(chk):
    r = random.Random(chk.seed * 49979687 + 9)
    out = []
    mods = [("gauss", dict(d=2)), ("Staircase", {}), ("gauss_prior", {}), ("Disc", {}), ("exp_prior", dict(offset=-500.0)), ("HoleL", {})]
    for i in range(240 if chk.thorough else 56):
        n = r.choice([1, 2, 2, 3, 4])
        ints = []
        for j in range(r.choice([1, 1, 2, 3, 4])):
            kind = r.choice(["signal", "signal", "signal", "group", "crash"])
            ops = r.choice([r.randrange(1, 60), r.randrange(40, 40 + 120 * n), r.randrange(40, 40 + 60 * n)])
            ints.append(dict(kind=kind, sig=r.choice(H.SIGS), ops=ops, lines=r.choice([0, r.randrange(0, 12), r.randrange(0, 80)])))
            if kind == "group" and r.random() < .75:
                w = r.choice([None, "set_ensemble", "set_ensemble"])
                ints[-1].update(sampler_lines=[r.randrange(1, 90 if w else 400) for _ in range(n)], within=w)
        kw = dict(nthreads=n, nlive=r.choice([n + 2, 12, 20]), maxmcmc=r.choice([5, 10]), poolsize=r.choice([8, 12]), nslice=r.choice([0, 0, 1, n]))
        if i % 12 == 5:
            kw.update(nhamiltonian=1, nslice=0, poolsize=30, nlive=14)
            ints[0].update(kind="group", sampler_lines=[r.randrange(1, 120) for _ in range(n)], within="set_ensemble")
        if i % 5 == 3 or any(x["kind"] == "crash" for x in ints):
            kw["periodic_checkpoint_interval"] = 1e-9
        m = mods[i % len(mods)]
        if kw.get("nhamiltonian"):
            m = ("gauss", dict(d=2))
        out.append(dict(model=m, kw=kw, interrupts=ints, policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6), scratch=chk.scratch))
    return out


def start_reference(d, replies, N, n):
    """reference that continues from the state d of a resumed integrator"""
    ref = nsref.Reference(replies, N, n)

    class P:
        __slots__ = ("k", "logL", "logP", "values")

        def __init__(self, k):
            self.k, self.values, self.logL, self.logP = k, k[0], k[1], k[2]
    if d["initialised"]:
        ref.live = [P(k) for k in d["live"]]
        ref.keys = [p.logL for p in ref.live]
        ref.recorded = [P(k) for k in d["recorded"]]
        ref.steps = len(ref.recorded) // n
        ref.step_logl = [ref.recorded[(i + 1) * n - 1].logL for i in range(ref.steps)]
    return ref


def snapshot(ref):
    return (tuple(nsref.key(p) for p in ref.live), tuple(nsref.key(p) for p in ref.recorded))


def check_state(bad, d, N, n, where):
    """an integrator state at the end of a step, whatever the history"""
    if not d["initialised"]:
        return
    if len(d["live"]) != N or None in d["live"]:
        bad.append(("live-count", "%s: %d live points instead of %d" % (where, len(d["live"]), N)))
        return
    if [k[1] for k in d["live"]] != sorted(k[1] for k in d["live"]):
        bad.append(("live-order", "%s: live points out of order" % where))
    if len(d["recorded"]) % n:
        bad.append(("half-step", "%s: %d recorded samples with %d samplers" % (where, len(d["recorded"]), n)))
    steps = len(d["recorded"]) // n
    if d["recorded"] and d["recorded"][-1][1] > d["live"][0][1]:
        bad.append(("order", "%s: a recorded sample lies above a live point" % where))
    if abs(d["logw"] + steps * n / float(N)) > 1e-9 or d["state_iteration"] != steps or len(d["log_vols"]) != steps + 1 or len(d["logLs"]) != steps + 1:
        bad.append(("volume", "%s: log volume %r, %d values, after %d steps of %d of %d points" % (where, d["logw"], len(d["log_vols"]), steps, n, N)))
    elif d["logLs"][1:] != [d["recorded"][(i + 1) * n - 1][1] for i in range(steps)]:
        bad.append(("sequence", "%s: the evidence's likelihood sequence is not that of the recorded samples" % where))
    else:
        rect, w = -np.inf, 0.0
        for l in d["logLs"][1:]:
            rect = np.logaddexp(rect, w + l + nsref.logsub(0.0, -n / float(N)))
            w -= n / float(N)
        if steps and not abs(rect - d["logZ"]) < 1e-7 * (1 + abs(rect)):
            bad.append(("evidence-state", "%s: logZ %r, %r follows from the recorded samples" % (where, d["logZ"], rect)))
    if len(d["indices"]) != steps * n or d["accepted"] != steps * n or d["iteration"] != steps * n:
        bad.append(("diagnostics", "%s: %d insertion indices, %d accepted, iteration %d after %d steps of %d" % (where, len(d["indices"]), d["accepted"], d["iteration"], steps, n)))


def one(case):
    folder = tempfile.mkdtemp(prefix="c09-", dir=case["scratch"]) + "/out"
    os.makedirs(folder)
    out = dict(trouble=None, bad=[], n=collections.Counter())
    bad, cnt = out["bad"], out["n"]
    n, N = case["kw"]["nthreads"], case["kw"]["nlive"]
    marks, trace, final = [], [], None
    prev = disk = None
    for st in H.play(case, folder):
        tag = "stage %d (%s)" % (st.index, "%s at %s" % (st.spec, st.interrupt.where) if st.fired else "to the end")
        trace.append(st.sim.trace_hash)
        # ---- what the stage started from
        nsfile = "nested_sampler_resume.pkl"
        if st.files_before.get(nsfile):
            cnt["resumed_integrators"] += 1
            if disk is not None:
                for x in H.differences(disk, st.start_ns)[:3]:
                    bad.append(("resumed-differs", "%s: the integrator resumed with another state than the checkpoint's: %s" % (tag, x)))
            if prev is not None and prev.get("memory"):
                for x in H.differences(prev["memory"], st.start_ns)[:3]:
                    bad.append(("not-continued", "%s: the integrator continues with another state than it was interrupted with: %s" % (tag, x)))
            top = max([k[1] for k in st.start_ns["live"] if k] or [-np.inf])
            if st.start_max < top:
                bad.append(("maximum", "%s: the best likelihood is %r after resuming, a live point has %r" % (tag, st.start_max, top)))
            low = st.start_ns["recorded"][-1][1] if st.start_ns["recorded"] else -np.inf
            high = st.start_ns["live"][n - 1][1] if st.start_ns["live"] and None not in st.start_ns["live"] else np.inf
            cnt["resumed_thresholds"] += int(low > -np.inf)
            if not (low <= st.start_min <= high) and st.start_min != np.inf:
                bad.append(("threshold", "%s: the likelihood threshold of the samplers is %r after resuming, between the last recorded sample's %r and the next one's %r is right" % (tag, st.start_min, low, high)))
        if prev is not None:
            for i, (d, s) in enumerate(zip(prev["samplers"], st.start_samplers)):
                if d is not None and st.files_before.get("sampler_%d.pkl" % i):
                    cnt["resumed_samplers"] += 1
                    for x in H.differences(d, s)[:3]:
                        bad.append(("sampler-state", "%s: sampler %d (%s) resumed as another (%s): %s" % (tag, i, d["kind"], s["kind"], x)))
        # ---- how it ended
        res = st.res
        if res.status == "deadlock":
            bad.append(("hang", "%s: nobody can go on: %s" % (tag, res.error)))
            break
        if res.status == "budget":
            out["trouble"] = "budget: " + tag
            break
        if res.status == "crash":
            bad.append(("failed", "%s: %s" % (tag, res.error[-900:])))
            break
        if res.status == "exit" and res.code != 130:
            bad.append(("exit-status", "%s: exit status %r" % (tag, res.code)))
        if res.status in ("exit", "ok") and res.leftover:
            bad.append(("samplers-left", "%s: %s have not ended" % (tag, res.leftover)))
            break
        for t in res.worker_errors:
            if "SimKill" not in t and "_Terminated" not in t:
                bad.append(("sampler-failed", "%s: %s" % (tag, t[-600:])))
        if st.interrupt is not None:
            cnt["samplers_interrupted_at_a_line"] += len(st.interrupt.hits)
            cnt["samplers_interrupted_in_set_ensemble"] += len(st.interrupt.hits) if st.spec.get("within") else 0
        # ---- replay
        rep = [t[3] for _, t in runs.replies(st.sim)]
        ref = start_reference(st.start_ns, rep, N, n)
        states = []
        try:
            if len(ref.live) < N:
                ref.fill()
            states.append(snapshot(ref))
            while ref.more():
                ref.step()
                states.append(snapshot(ref))
        except nsref.Fault:
            if res.status == "ok":
                bad.append(("step-incomplete", tag))
        if res.status == "ok":
            final = st
            cnt["completed"] += 1
            got = [nsref.key(p) for p in st.cp.NS.nested_samples]
            want = [nsref.key(p) for p in ref.final_samples()]
            if got != want:
                lost, extra = collections.Counter(want) - collections.Counter(got), collections.Counter(got) - collections.Counter(want)
                bad.append(("final-samples", "%s: %d nested samples, %d expected; %d lost, %d in excess" % (tag, len(got), len(want), sum(lost.values()), sum(extra.values()))))
            vols = nsref.volumes(ref.steps, n, N)
            seq = ref.logl_sequence()
            z, h, first, zr = nsref.evidence(seq, vols)
            if not abs(z - st.cp.NS.logZ) < 1e-7 * (1 + abs(z)):
                bad.append(("final-evidence", "%s: logZ %r, %r follows from the recorded samples" % (tag, st.cp.NS.logZ, z)))
            dx0 = nsref.logsub(vols[0], vols[1])
            w0 = np.exp(seq[0] + dx0 - zr)
            tol = 1e-6 * (1 + abs(h))
            if not h - w0 * max(0.0, -dx0) - tol <= st.cp.NS.state.info <= h + tol:
                bad.append(("final-information", "%s: H %r, %r follows from the recorded samples" % (tag, st.cp.NS.state.info, h)))
            if len(st.cp.NS.insertion_indices) != ref.steps * n:
                bad.append(("diagnostics", "%s: %d insertion indices after %d steps of %d" % (tag, len(st.cp.NS.insertion_indices), ref.steps, n)))
            fin = st.cp.manager.logLmax.value
            for i, d in enumerate(st.end_samplers):
                m = max([k[1] for k in d["ensemble"] + d["chain"]] or [-np.inf])
                if m > fin:
                    bad.append(("maximum", "%s: sampler %d (%s) holds a point with logL %r that it accepted, the best likelihood ends at %r" % (tag, i, d["kind"], m, fin)))
            break
        # ---- interrupted
        cnt["interruptions_" + st.spec["kind"]] += 1
        cnt["steps_before_interruptions"] += max(0, len(states) - 1)
        marks.append(st.interrupt.where)
        new = st.files_after.get(nsfile) != st.files_before.get(nsfile)
        disk, memory = None, None
        if st.files_after.get(nsfile):
            try:
                disk = H.ns_digest(H.load_ns(folder))
            except Exception as e:
                bad.append(("unreadable", "%s: the checkpoint cannot be read: %r" % (tag, e)))
                break
        if res.status == "exit":
            e = st.end_ns
            if e["initialised"] and states:
                done = not e["condition"] > st.cp.NS.tolerance
                told = any(ev[0] == "send" and ev[1] == 0 and pickle.loads(ev[4]) is None for ev in st.sim.events)
                if not (done or told):
                    here = (tuple(e["live"]), tuple(e["recorded"]))
                    if here not in states[-2:]:
                        bad.append(("half-step", "%s: the state is neither that before nor that after the interrupted step (%d recorded, %d live)" % (tag, len(e["recorded"]), len(e["live"]))))
                    check_state(bad, e, N, n, tag)
                    if new:
                        memory = e
                        cnt["checkpoints_compared"] += 1
                        for x in H.differences(e, disk)[:3]:
                            bad.append(("checkpoint-differs", "%s: the checkpoint is not the state at the interruption: %s" % (tag, x)))
                    elif len(e["recorded"]) > len(st.start_ns["recorded"]):
                        bad.append(("not-checkpointed", "%s: no checkpoint of %d recorded samples" % (tag, len(e["recorded"]))))
        else:
            if new and disk is not None and states:
                cnt["crash_checkpoints_compared"] += 1
                here = (tuple(disk["live"]), tuple(disk["recorded"]))
                if here not in states:
                    bad.append(("half-step", "%s: the checkpoint left by a crash is not the state at the end of any step" % tag))
                elif here not in states[-2:] + ([states[-3]] if len(states) > 2 else []):
                    bad.append(("old-checkpoint", "%s: the checkpoint left by a crash is %d steps old although every step is checkpointed" % (tag, len(states) - 1 - states.index(here))))
                check_state(bad, disk, N, n, tag)
        ends = [a.exitcode for a in st.sim.actors[1:]]
        prev = dict(memory=memory, samplers=[d if res.status == "exit" and i < len(ends) and ends[i] in (130, 0) and
                                            st.files_after.get("sampler_%d.pkl" % i) != st.files_before.get("sampler_%d.pkl" % i) else None
                                            for i, d in enumerate(st.end_samplers)])
    shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
    out["n"] = dict(cnt)
    out["trace"] = tuple(trace)
    out["marks"] = marks
    return out


def samplers_alone(case):
    """single samplers interrupted at a line of their own work, checkpointed as they do then, resumed from it and used"""
    import sys, random as rnd
    import cpnest
    from cpnest.cpnest import CheckPoint
    from vlib import drive, models as M
    package = os.path.dirname(cpnest.__file__)
    folder = tempfile.mkdtemp(prefix="c09s-", dir=case["scratch"])
    bad, n = [], collections.Counter()
    r = rnd.Random(case["seed"])
    for rep in range(case["reps"]):
        model = M.gauss(d=r.choice([1, 2, 3]))
        s, man = drive.sampler(case["kind"], model, 10, 20, case["seed"] + rep, folder=folder)
        s.reset()
        for _ in range(r.randrange(1, 8)):
            next(s.yield_sample(-np.inf))
        s.proposal.set_ensemble(s.evolution_points)
        s.counter = 1
        man.logLmin.value = float(np.percentile([p.logL for p in s.evolution_points], 20))
        within = r.choice(["set_ensemble", "set_ensemble", "yield_sample"])
        left = [r.randrange(1, (40 if case["kind"] != "hmc" else 110) if within == "set_ensemble" else 200)]
        where = [None]

        def loc(f, e, a):
            if e == "line":
                left[0] -= 1
                if left[0] <= 0:
                    sys.settrace(None)
                    where[0] = "%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_lineno)
                    raise CheckPoint()
            return loc

        def glob(f, e, a):
            name = f.f_code.co_filename
            return loc if name.startswith(package) and not name.endswith("cpnest.py") else None
        sys.settrace(glob)
        try:
            for _ in range(3):
                s.proposal.set_ensemble(s.evolution_points) if within == "set_ensemble" else next(s.yield_sample(man.logLmin.value))
        except CheckPoint:
            pass
        finally:
            sys.settrace(None)
        if where[0] is None:
            continue
        n["samplers_alone_interrupted"] += 1
        desc = "%s sampler in %d dimensions interrupted at %s (%s)" % (case["kind"], len(model.names), where[0], within)
        before = H.sampler_digest(s)
        s.checkpoint()
        m2 = drive.Manager()
        m2.logLmin.value = man.logLmin.value
        try:
            t = type(s).resume(s.resume_file, m2, model)
            for x in H.differences(before, H.sampler_digest(t))[:3]:
                bad.append(("sampler-state", "%s: resumed as another: %s" % (desc, x)))
            if len(t.evolution_points) < 19:
                bad.append(("points-lost", "%s: %d of 20 points left" % (desc, len(t.evolution_points))))
            went = [twin(x, m, model, case["seed"] + rep) for x, m in ((s, man), (t, m2))]
            for k, (a, b) in enumerate(zip(*went)):
                n["steps_compared_with_the_uninterrupted_sampler"] += 1
                if a != b:
                    bad.append(("not-continued", "%s: with the same random numbers and requests, the resumed sampler does %s at its step %d, the original %s" % (desc, b, k, a)))
                    break
            for k in range(8):
                start = max(t.evolution_points, key=lambda p: p.logL).copy()
                t.evolution_points.append(start)
                _, p = next(t.yield_sample(m2.logLmin.value))
                if not p.logL == model.log_likelihood(p) or not model.in_bounds(p):
                    bad.append(("invalid", "%s: gives %r, logL %r, after resuming" % (desc, list(p.values), p.logL)))
                if k == 4:
                    t.proposal.set_ensemble(t.evolution_points)
                n["samples_of_resumed_samplers"] += 1
        except Exception:
            import traceback
            bad.append(("sampler-failed", "%s: after resuming: %s" % (desc, traceback.format_exc()[-700:])))
    shutil.rmtree(folder, ignore_errors=True)
    return dict(bad=bad, n=dict(n), places=[])


def twin(s, man, model, seed):
    """what a sampler does with given random numbers and given requests; a sampler and its resumed copy do the same"""
    import random as rnd
    rnd.seed(seed)
    np.random.seed(seed)
    out = []
    # momenta are drawn by an object that is only replaced here
    s.proposal.set_ensemble(s.evolution_points)
    for k in range(24):
        if k % 3:
            start = model.new_point()
            start.logP, start.logL = model.log_prior(start), model.log_likelihood(start)
            s.evolution_points.append(start)
        c, p = next(s.yield_sample(man.logLmin.value))
        out.append((c, tuple(p.values), p.logL, len(s.evolution_points), s.acceptance))
        if k % 7 == 6:
            s.proposal.set_ensemble(s.evolution_points)
            if s.samples:
                out.append(s.estimate_nmcmc())
    return out


def run(chk):
    alone = [dict(kind=["mhs", "sli", "hmc"][i % 3], reps=60 if chk.thorough else 25, seed=chk.seed * 1009 + i, scratch=chk.scratch) for i in range(24 if chk.thorough else 9)]
    for o in forked(alone, samplers_alone, timeout=300):
        if o.status != "ok":
            chk.inconclusive("%s: %s %s" % (o.case, o.status, str(o.value)[-600:]))
            continue
        for mech, msg in o.value["bad"][:5]:
            chk.violation(mech, msg, case={k: v for k, v in o.case.items() if k != "scratch"})
        for k, v in o.value["n"].items():
            chk.count(k, v)
    chk.require("samplers_alone_interrupted", 60)
    chk.require("steps_compared_with_the_uninterrupted_sampler", 1000)
    places = collections.Counter()
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=900 if chk.thorough else 60)):
        places.update(v.get("marks", ()))
        chk.case((runs.describe(case), str(case["interrupts"]), v.get("trace")), v["n"].get("resumed_integrators", 0) > 0,
                 sample=dict(case=runs.describe(case), interrupts=case["interrupts"], observed=v["n"]))
    chk.extra["interrupted_at"] = dict(places.most_common(60))
    chk.counts["distinct_places"] = len(places)
    chk.require("resumed_integrators", 20)
    chk.require("resumed_thresholds", 25)
    chk.require("resumed_samplers", 60)
    chk.require("checkpoints_compared", 20)
    chk.require("completed", 20)
    chk.require("distinct_places", 15)
