"""C18: order and contents of the live set under operation sequences and in runs; insertion ranks."""
import pickle, random, tempfile, shutil, os, copy
import numpy as np
from array import array
from vlib import runs, nsref
from vlib.check import forked

RULE = ("one case = one operation sequence on a live set (with ties), or one complete simulated run whose insertion indices are all recomputed; "
        "non-trivial if keys were tied or several samplers were used")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: operation-by-operation comparison with a sorted reference list; ranks recomputed from the message log of scheduled runs"
NOTE = ("Every operation of the explored sequences and every insertion of the explored runs is judged exactly (identity of the points, not only their keys). "
        "Sequences, models and schedules are sampled by seed.")
ASSUMPTIONS = []


def cases(chk):
    r = random.Random(chk.seed * 49979687 + 18)
    out = []
    for i in range(24 if chk.thorough else 8):
        out.append(dict(kind="ops", model=("-", {}), kw={}, n=400 if chk.thorough else 150, seed=r.randrange(1, 10 ** 6)))
    mods = [("Staircase", {}), ("gauss", dict(d=2)), ("steps", {}), ("Disc", {}), ("HoleL", {}), ("gauss", dict(d=1, offset=-2e4))]
    for i in range(80 if chk.thorough else 18):
        n = r.choice([1, 2, 3, 4, 6])
        out.append(dict(kind="run", model=mods[i % len(mods)], kw=dict(nthreads=n, nlive=r.choice([n + 2, 15, 33, 60]), maxmcmc=r.choice([5, 20, 40]), poolsize=r.choice([10, 30]),
                        nslice=r.choice([0, 0, 1]), verbose=2 if i % 6 == 5 else 0), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    # long histories: many times as many steps as live points
    for i in range(12 if chk.thorough else 4):
        n = [1, 2, 3, 1][i % 4]
        out.append(dict(kind="run", model=("gauss", dict(d=[1, 2][i % 2], sigma=10.0 ** -[25, 16][i % 2])), budget=250000,
                        kw=dict(nthreads=n, nlive=n + [3, 9][i % 2], maxmcmc=60, poolsize=20, verbose=2 * (i % 2)), policy=r.choice(runs.POLICIES[:2]), seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def ops(case):
    from cpnest.NestedSampling import OrderedLivePoints, KeyOrderedList
    from cpnest.parameter import LivePoint
    r = random.Random(case["seed"])
    bad, n = [], dict(sequences=0, operations=0, tied_insertions=0, pickled=0)
    serial = [0]

    def point(l):
        serial[0] += 1
        p = LivePoint(["a", "b"], d=array("d", [float(serial[0]), r.random()]))
        p.logL, p.logP = l, -r.random()
        return p

    def draw(kind):
        if kind == 0:
            return r.gauss(0, 1)
        if kind == 1:
            return float(r.randrange(5))
        if kind == 2:
            return r.choice([-np.inf, -1e300, -1.0, 0.0, -0.0, 1e-300, np.inf, 1e300, 7.0])
        return -1e8 + r.randrange(3) * 1.5e-8

    class M:
        """(key, serial) in the order demanded: by key, equals in order of insertion"""
        def __init__(self, items):
            self.items = sorted(items, key=lambda t: t[0])

        def add(self, l, s):
            k = sum(1 for t in self.items if t[0] <= l)
            tied = k > 0 and self.items[k - 1][0] == l
            self.items.insert(k, (l, s))
            return k, tied

    for q in range(case["n"]):
        kind = r.randrange(4)
        pts = [point(draw(kind)) for _ in range(r.choice([1, 2, 3, 10, 40]))]
        live = OrderedLivePoints(pts)
        m = M([(p.logL, p["a"]) for p in pts])
        trail = ["start %d kind %d" % (len(pts), kind)]
        ok = True
        for step in range(r.choice([5, 30, 100])):
            u = r.random()
            n["operations"] += 1
            if u < 0.6:
                p = point(draw(kind))
                k, tied = m.add(p.logL, p["a"])
                n["tied_insertions"] += tied
                if r.random() < 0.5:
                    s = live.search(p)
                    if s != k:
                        bad.append(("search", "%s: a point belongs at %d, search says %r" % (trail[0], k, s))); ok = False; break
                got = live.insert_live_point(p)
                if got != k:
                    bad.append(("reported-position", "%s: inserted at %d (after its equals), reported %r" % (trail[0], k, got))); ok = False
            elif u < 0.9:
                c = r.randrange(0, min(len(m.items), 6) + 1)
                if len(m.items) - c < 1:
                    continue
                live.remove_n_worst_points(c)
                del m.items[:c]
            else:
                how = r.randrange(3)
                live = pickle.loads(pickle.dumps(live, r.choice([2, 4, 5]))) if how else copy.deepcopy(live)
                n["pickled"] += 1
            have = [(p.logL, p["a"]) for p in live]
            if have != m.items or len(live) != len(m.items):
                d = [i for i in range(min(len(have), len(m.items))) if have[i] != m.items[i]]
                bad.append(("contents", "%s after %d operations: %d points, %d expected, first difference at %s" % (trail[0], step, len(have), len(m.items), d[:1])))
                ok = False
            if not ok:
                break
        n["sequences"] += 1
        # the general list
        vals = [draw(kind) for _ in range(20)]
        kl = KeyOrderedList(vals[:5])
        for v in vals[5:]:
            k = sum(1 for x in kl if x <= v)
            if kl.add(v) != k or list(kl) != sorted(kl):
                bad.append(("key-list", "KeyOrderedList.add(%r)" % v))
                break
    return dict(trouble=None, bad=bad, n=n, trace=case["seed"])


def run_case(case):
    folder = tempfile.mkdtemp(prefix="c18-", dir=case["scratch"])
    disorder = []
    box = {}
    count = [0]

    def watch(sim, conn, obj):
        # the main process is between two operations on its live set whenever it waits for a worker
        if conn.side != 0 or "cp" not in box:
            return
        p = box["cp"].NS.params
        if p and p[0] is not None:
            count[0] += 1
            l = [x.logL for x in p]
            if any(b < a for a, b in zip(l, l[1:])):
                disorder.append("live set out of order: %s" % l[:8])

    res, sim, model = runs.simulate(case, folder, hooks=dict(after_recv=watch), before_run=lambda cp: box.update(cp=cp))
    out = dict(trouble=runs.trouble(res), bad=[("order", d) for d in disorder[:2]], n={})
    if res.status == "ok":
        bad, n, N = out["bad"], res.kw["nthreads"], res.kw["nlive"]
        ref = nsref.Reference([t[3] for _, t in runs.replies(sim)], N, n)
        try:
            ref.run()
        except nsref.Fault as e:
            bad.append(("step-incomplete", str(e)))
            return out
        got = [float(x) for x in res.cp.NS.insertion_indices]
        want = [i / float(s) if s else 0.0 for i, s in ref.ranks]
        if len(got) != len(want):
            bad.append(("one-per-replacement", "%d insertion indices, %d replacements" % (len(got), len(want))))
        out_of = [g for g in got if not 0 <= g <= 1]
        if out_of:
            bad.append(("range", "insertion index %r" % out_of[0]))
        d = [k for k in range(min(len(got), len(want))) if abs(got[k] - want[k]) > 1e-12]
        if d:
            k = d[0]
            bad.append(("rank", "insertion %d: index %r, rank %d of %d surviving live points" % (k, got[k], ref.ranks[k][0], ref.ranks[k][1])))
        if case["kw"]["verbose"] >= 2:
            f = np.atleast_1d(np.loadtxt(os.path.join(folder, "insertion_indices.dat")))
            if f.shape != (len(want),) or not np.allclose(f, want, atol=1e-12):
                bad.append(("file", "insertion_indices.dat has %s values, not the run's %d indices" % (f.shape, len(want))))
            out.setdefault("n", {})
        out["n"] = dict(insertions=len(want), files=int(case["kw"]["verbose"] >= 2), order_observations=count[0], steps=ref.steps)
        out["trace"] = sim.trace_hash
    shutil.rmtree(folder, ignore_errors=True)
    return out


def one(case):
    return ops(case) if case["kind"] == "ops" else run_case(case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=400)):
        for i in range(v["n"].get("sequences", 1)):
            chk.case((runs.describe(case), v.get("trace"), i), case["kind"] == "ops" or case["kw"]["nthreads"] > 1,
                     sample=dict(case=runs.describe(case), observed=v["n"]) if i == 0 else None)
    chk.require("tied_insertions", 1000)
    chk.require("insertions", 1000)
    chk.require("pickled", 100)
    chk.require("files", 1)
