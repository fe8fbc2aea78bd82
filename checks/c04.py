"""C04: every nested-sampling step against the discard/replace rule, from the recorded samples and the message log."""
import pickle, random, tempfile, shutil
import numpy as np
from vlib import runs, nsref
from vlib.check import forked

RULE = ("one case = one complete simulated run; every step of it is judged. Non-trivial if a reply not above the threshold was received, "
        "or live points were tied at the threshold")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: step-by-step oracle (reference nested sampler fed with the recorded replies) over scheduled real runs"
NOTE = ("Each step of the explored runs is compared with what the discard/replace rule demands for the replies actually received, including ties at the "
        "threshold and rejected replies. Models, sizes and schedules are sampled by seed.")
ASSUMPTIONS = ["the simulated scheduler switches between processes at pipe operations and shared-value accesses only"]


def cases(chk):
    r = random.Random(chk.seed * 104729 + 4)
    mods = [("Staircase", {}), ("gauss", dict(d=2)), ("steps", {}), ("Staircase", dict(coarse=0.6)), ("Disc", {}), ("gauss", dict(d=1, offset=3e4)), ("HoleL", {})]
    out = []
    for i in range(140 if chk.thorough else 28):
        n = r.choice([1, 2, 3, 3, 4, 6, 8])
        kw = dict(nthreads=n, nlive=r.choice([n + 2, 2 * n + 1, 25, 40, 60]), maxmcmc=r.choice([4, 15, 40]), poolsize=r.choice([10, 25, 50]))
        if i % 3 == 1:
            kw["nslice"] = r.randrange(1, n + 1)
        if i % 14 == 13:
            kw = dict(nthreads=1, nlive=20, nhamiltonian=1, maxmcmc=12, poolsize=30)
        out.append(dict(model=("gauss", dict(d=2)) if "nhamiltonian" in kw else mods[i % len(mods)], kw=kw,
                        policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6), scratch=chk.scratch))
    # samplers that go on strike: for long streaks they send back the very point they were given
    for i in range(20 if chk.thorough else 5):
        n = [1, 2, 3][i % 3]
        out.append(dict(model=mods[i % 2], kw=dict(nthreads=n, nlive=[n + 2, 12][i % 2], maxmcmc=8, poolsize=10, nslice=[0, 0, n][i % 3]), strike=[450, 900, 1400][i % 3], budget=400000,
                        policy=[dict(), dict(preempt=0.05)][i % 2], seed=r.randrange(1, 10 ** 6), scratch=chk.scratch))
    return out


def strikers(case):
    """some requests of a run begin a streak of replies that are the point sent: nothing is above the threshold"""
    def before_run(cp):
        r = random.Random(case["seed"])
        for s in runs.samplers(cp):
            state = dict(left=0, streaks=0, calls=0)

            def yield_sample(logLmin, s=s, state=state, real=s.yield_sample):
                state["calls"] += 1
                if logLmin > -np.inf and "pool" in state and state["left"] == 0 and state["streaks"] < 2 and r.random() < .02:
                    state["left"], state["streaks"] = r.randrange(case["strike"] // 2, case["strike"]), state["streaks"] + 1
                if state["left"] > 0 and not s.evolution_points[-1].logL > logLmin:
                    state["left"] -= 1
                    p = s.evolution_points[-1]
                    s.evolution_points.clear()          # a pool of copies of one point could never move again
                    s.evolution_points.extend(state["pool"])
                    return iter([(1, p)])
                out = next(real(logLmin))
                state["pool"] = list(s.evolution_points)
                return iter([out])

            s.yield_sample = yield_sample
    return before_run


def one(case):
    folder = tempfile.mkdtemp(prefix="c04-", dir=case["scratch"])
    res, sim, model = runs.simulate(case, folder, before_run=strikers(case) if "strike" in case else None)
    out = dict(trouble=runs.trouble(res), bad=[], n={})
    if res.status == "ok":
        bad, n, N = out["bad"], res.kw["nthreads"], res.kw["nlive"]
        got = list(res.cp.NS.nested_samples)
        logl = np.array([p.logL for p in got])
        down = np.where(np.diff(logl) < 0)[0]
        if len(down):
            bad.append(("sequence-decreases", "logL %r after %r at recorded sample %d" % (logl[down[0] + 1], logl[down[0]], down[0] + 1)))
        rep = [t[3] for _, t in runs.replies(sim)]
        ref = nsref.Reference(rep, N, n)
        try:
            ref.run()
        except nsref.Fault as e:
            bad.append(("step-incomplete", str(e)))
        else:
            want = [p.logL for p in ref.final_samples()]
            if len(want) != len(got):
                bad.append(("live-count", "%d samples recorded, %d expected for %d steps of %d and %d live points" % (len(got), len(want), ref.steps, n, N)))
            d = [i for i in range(min(len(want), len(got))) if want[i] != got[i].logL]
            if d:
                i = d[0]
                bad.append(("wrong-discard", "recorded sample %d (step %d) has logL %r, the rule discards %r" % (i, i // n, got[i].logL, want[i])))
            # every replacement of a step strictly above everything the step discarded
            for s in range(ref.steps):
                worst = max(p.logL for p in ref.recorded[s * n:(s + 1) * n])
                for p in ref.admitted[N + s * n:N + (s + 1) * n]:
                    if not p.logL > worst:
                        bad.append(("not-above", "step %d admitted %r, discarded up to %r" % (s, p.logL, worst)))
            # a rejected reply is asked for again from the same sampler before anything else is received from it
            thr, filled, waiting, nadm, step_adm = -np.inf, False, {}, 0, 0
            asked_again = rejected = ties = streak = longest = 0
            live = []
            pos = 0
            adm = 0
            for e in sim.events:
                if e[1] != 0 or e[0] not in ("send", "recv"):
                    continue
                pipe = e[2]
                if e[0] == "send":
                    if waiting.pop(pipe, None):
                        asked_again += 1
                    continue
                if waiting.get(pipe):
                    bad.append(("not-asked-again", "pipe %d: another reply is read after a rejected one that was not requested again" % pipe))
                    waiting.pop(pipe)
                p = rep[pos]
                pos += 1
                if adm < N:
                    ok = p.logP > -np.inf and p.logL > -np.inf
                else:
                    ok = p.logL > ref.step_logl[(adm - N) // n] if (adm - N) // n < len(ref.step_logl) else True
                streak = 0 if ok else streak + 1
                longest = max(longest, streak)
                if ok:
                    adm += 1
                else:
                    rejected += 1
                    waiting[pipe] = True
            if waiting:
                bad.append(("not-asked-again", "pipes %s: rejected reply never requested again" % sorted(waiting)))
            for s in range(ref.steps):
                k = ref.step_logl[s]
                after = ref.recorded[(s + 1) * n:(s + 1) * n + 1]
                ties += bool(after and after[0].logL == k)
            out["n"] = dict(steps=ref.steps, rejected=rejected, asked_again=asked_again, ties_at_threshold=ties, replacements=ref.steps * n)
            out["n"]["runs_with_200_rejected_in_a_row"] = int(longest >= 200)
            out["trace"] = sim.trace_hash
    shutil.rmtree(folder, ignore_errors=True)
    return out


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=400)):
        chk.case((runs.describe(case), v.get("trace")), v["n"].get("rejected", 0) or v["n"].get("ties_at_threshold", 0),
                 sample=dict(case=runs.describe(case), observed=v["n"]))
    chk.require("steps", 300)
    chk.require("rejected", 50)
    chk.require("runs_with_200_rejected_in_a_row", 1)
    chk.require("ties_at_threshold", 10)
