"""C05: conservation of samples: live set and outputs against the replies received; requests and replies per pipe."""
import collections, itertools, os, pickle, random, tempfile, shutil
import numpy as np
from vlib import runs, nsref
from vlib.check import forked

RULE = ("one case = one complete simulated run (real CPNest code, samplers as scheduled actors); non-trivial if replies were rejected, "
        "points were tied, or replies of different samplers arrived in an order other than round-robin")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: conservation and request/reply ledger over the recorded message log of scheduled real runs"
NOTE = ("Every reply, admission and output row of the explored runs is accounted for; configurations, models and schedules are sampled by seed. "
        "Trusts the in-process scheduler to present only interleavings real processes can have.")
ASSUMPTIONS = ["the simulated scheduler switches between processes at pipe operations and shared-value accesses only",
               "messages are pickled and unpickled as multiprocessing does"]


def cases(chk):
    r = random.Random(chk.seed * 7919 + 5)
    out = []
    mods = [("gauss", dict(d=2)), ("Staircase", {}), ("steps", {}), ("HoleL", {}), ("Disc", {}), ("gauss", dict(d=1, offset=-1e5)),
            ("uneven", {}), ("exp_prior", {}), ("NanL", {})]
    mixes = [dict(nthreads=1), dict(nthreads=2), dict(nthreads=3), dict(nthreads=5), dict(nthreads=2, nslice=1), dict(nthreads=3, nslice=3),
             dict(nthreads=8), dict(nthreads=4, nslice=1)]
    n = 150 if chk.thorough else 28
    for i in range(n):
        m = mods[i % len(mods)]
        kw = dict(mixes[i % len(mixes)] if i < 2 * len(mixes) else r.choice(mixes))
        kw["nlive"] = r.choice([kw["nthreads"] + 1, 10, 17, 30, 50, 60])
        if kw["nlive"] <= kw["nthreads"]:
            kw["nlive"] = kw["nthreads"] + 2
        kw["maxmcmc"] = r.choice([3, 10, 20, 50])
        kw["poolsize"] = r.choice([8, 20, 40])
        if m[0] == "uneven":
            kw["nlive"] = max(10, min(kw["nlive"], 20))
        out.append(dict(model=m, kw=kw, policy=runs.POLICIES[r.randrange(len(runs.POLICIES))], seed=r.randrange(1, 10 ** 6)))
    h = [("gauss", dict(d=2)), ("gauss_prior", {})]
    for i in range(12 if chk.thorough else 3):
        out.append(dict(model=h[i % 2], kw=dict(nlive=25, nthreads=1 + i % 3, nhamiltonian=1, nslice=1 if i % 3 == 2 else 0, maxmcmc=15, poolsize=30),
                        policy=runs.POLICIES[i % len(runs.POLICIES)], seed=r.randrange(1, 10 ** 6)))
    return out


def one(case):
    folder = tempfile.mkdtemp(prefix="c05-", dir=case["scratch"])
    altered = []
    sent = collections.defaultdict(collections.deque)

    def image(o):
        if isinstance(o, tuple) and len(o) == 4:
            return tuple(float(x) for x in o[:3]) + (tuple(o[3].names), nsref.key(o[3]))
        if hasattr(o, "values") and hasattr(o, "logL"):
            return (tuple(o.names), nsref.key(o))
        return repr(o)

    def before_send(sim, conn, obj):
        sent[conn.index, conn.side].append(repr(image(obj)))

    def after_recv(sim, conn, obj):
        want = sent[conn.index, 1 - conn.side].popleft()
        if repr(image(obj)) != want:
            altered.append("sent %s received %s" % (want, image(obj)))

    res, sim, model = runs.simulate(case, folder, hooks=dict(before_send=before_send, after_recv=after_recv))
    out = dict(trouble=runs.trouble(res), bad=[], n={})
    if res.status == "ok":
        n, N = res.kw["nthreads"], res.kw["nlive"]
        bad = out["bad"]
        rep = runs.replies(sim)
        bad += [("altered-in-transit", a) for a in altered[:3]]
        # requests and replies, per pipe
        req, ans, pend = collections.Counter(), collections.Counter(), collections.Counter()
        for e in sim.events:
            if e[0] == "recv" and e[1] != 0:
                o = pickle.loads(e[4])
                if hasattr(o, "values"):
                    req[e[2]] += 1
            if e[0] == "send" and e[1] != 0:
                ans[e[2]] += 1
                if ans[e[2]] > req[e[2]]:
                    bad.append(("reply-without-request", "pipe %d: reply %d after only %d requests" % (e[2], ans[e[2]], req[e[2]])))
        for i in range(n):
            # the last request may be overtaken by the end of the run
            if not 0 <= req[i] - ans[i] <= 1:
                bad.append(("request-unanswered", "pipe %d: %d requests received, %d replies" % (i, req[i], ans[i])))
        # conservation
        ref = nsref.Reference([t[3] for _, t in rep], N, n)
        try:
            ref.run()
        except nsref.Fault as e:
            bad.append(("step-incomplete", str(e)))
        else:
            want = collections.Counter(nsref.key(p) for p in ref.admitted)
            got = collections.Counter(nsref.key(p) for p in res.cp.NS.nested_samples)
            lost, extra = want - got, got - want
            if lost:
                bad.append(("sample-lost", "%d admitted points are missing from the nested samples, e.g. %s" % (sum(lost.values()), next(iter(lost)))))
            if extra:
                bad.append(("sample-invented", "%d nested samples were not admitted that often, e.g. %s" % (sum(extra.values()), next(iter(extra)))))
            if len(res.cp.NS.nested_samples) != N + ref.steps * n:
                bad.append(("sample-count", "%d nested samples, %d live + %d steps x %d" % (len(res.cp.NS.nested_samples), N, ref.steps, n)))
            arr = res.cp.nested_samples
            rows = collections.Counter((tuple(float(r[nm]) for nm in model.names), float(r["logL"]), float(r["logPrior"])) for r in arr)
            if rows != got:
                bad.append(("array-differs", "nested_samples array has %d rows that are not the nested samples" % sum((rows - got).values())))
            order = [i for i, _ in rep]
            out["n"] = dict(replies=len(rep), rejected=ref.rejected, unusable_when_filling=ref.fill_skipped, steps=ref.steps,
                            ties=len(ref.admitted) - len(set(p.logL for p in ref.admitted)), switches=sim.switches)
            out["trace"] = sim.trace_hash
    shutil.rmtree(folder, ignore_errors=True)
    return out


def run(chk):
    cs = [dict(c, scratch=chk.scratch) for c in cases(chk)]
    for case, v in runs.conclude(chk, forked(cs, one, timeout=400)):
        chk.case((runs.describe(case), v.get("trace")), v["n"].get("rejected", 0) or v["n"].get("ties", 0) or case["kw"]["nthreads"] > 1,
                 sample=dict(case=runs.describe(case), observed=v["n"]))
    chk.require("rejected", 20)
    chk.require("steps", 400)
    chk.require("unusable_when_filling", 1)
