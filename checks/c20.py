"""C20: the random generator states each sampler draws from, observed inside the user's model, in fresh and resumed runs."""
import collections, hashlib, json, os, random, shutil, signal, sys, tempfile, time, types
import numpy as np
from vlib import runs, history as H, models as M
from vlib.check import forked

RULE = ("one case = one history (fresh run, interrupted and resumed 0-3 times) of a mix of samplers, simulated or with real processes; distinct = distinct histories; non-trivial = at "
        "least two samplers were seen to draw numbers in the same stage")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: digests of the generators' states at every call of the user's model, plus the points evaluated, compared between samplers"
NOTE = ("A stream is recognised by the state vector of the Mersenne twister, so that samplers on one stream are found even if they are at different places of it. Only generators seen "
        "to advance count. In addition no two samplers may evaluate one and the same new point.")
ASSUMPTIONS = ["samplers draw from the module-level generators of numpy and random or from generators their objects, classes or modules hold (otherwise only the comparison of evaluated points decides)",
               "in the simulation every forked sampler's random module is reseeded, as CPython does; real runs check that as it is"]


def cases(chk):
    r = random.Random(chk.seed * 86028121 + 20)
    out = []
    mods = [("gauss", dict(d=2)), ("Disc", {}), ("gauss_prior", {}), ("exp_prior", dict(offset=-500.0))]
    for i in range(160 if chk.thorough else 44):
        n = r.choice([2, 2, 3, 4, 6])
        ints = [dict(kind=r.choice(["signal", "signal", "group", "crash"]), sig="SIGTERM", ops=r.choice([r.randrange(3, 12 * n), r.randrange(20 * n, 60 * n)]), lines=0) for _ in range([0, 1, 2, 3][i % 4])]
        kw = dict(nthreads=n, nlive=n + r.choice([3, 8]), maxmcmc=r.choice([5, 15]), poolsize=r.choice([8, 14]), nslice=r.choice([0, 1, n // 2, n]), verbose=0)
        if i % 11 in (3, 7):
            kw.update(nhamiltonian=min(n, 2 + i % 2), nslice=0, poolsize=30, nlive=n + 6)
        if any(x["kind"] == "crash" for x in ints):
            kw["periodic_checkpoint_interval"] = 1e-9
        m = mods[i % len(mods)] if not kw.get("nhamiltonian") else ("gauss", dict(d=2, half=1.5))
        out.append(dict(kind="sim", model=m, kw=kw, interrupts=ints, policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6), budget=9000))
    for i in range(8 if chk.thorough else 3):
        out.append(dict(kind="real", model=("gauss", dict(d=2)), kw=dict(nthreads=4, nslice=[0, 2, 1][i % 3], nhamiltonian=int(i % 3 == 2), nlive=30, maxmcmc=10, poolsize=24), seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


GENERATORS = (np.random.RandomState, np.random.Generator, random.Random)


def own_generators(limit=4000):
    """generators other than the two global ones that the sampler at work, its class or the package's modules hold"""
    import cpnest.sampler
    f = sys._getframe(2)
    while f is not None and not isinstance(f.f_locals.get("self"), cpnest.sampler.Sampler):
        f = f.f_back
    if f is None:
        return None
    found, seen = {}, set()
    todo = [f.f_locals["self"]]
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] == "cpnest":
            todo += [v for v in vars(m).values() if isinstance(v, GENERATORS)]
    while todo and len(seen) < limit:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (str, bytes, int, float, np.ndarray, types.ModuleType, types.FunctionType, types.MethodType, types.BuiltinFunctionType, M.Base)):
            continue
        seen.add(id(o))
        if isinstance(o, GENERATORS):
            if o is not np.random.mtrand._rand and o is not random._inst:
                found[id(o)] = o
        elif isinstance(o, dict):
            todo += o.values()
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            if not (len(o) and hasattr(next(iter(o)), "logL")):
                todo += o
        elif type(o).__module__.split(".")[0] not in ("vlib", "multiprocessing", "threading", "_thread", "logging", "ctypes"):
            for c in type(o).__mro__:
                if c.__module__.split(".")[0] in ("cpnest", "scipy"):
                    todo += [v for v in vars(c).values() if not callable(v)]
            todo += [v for k, v in getattr(o, "__dict__", {}).items() if k not in ("model", "manager", "logger", "producer_pipe", "logLmin", "logLmax")]
    return list(found.values())


def state_of(g):
    """(kind, stream, place in it)"""
    if isinstance(g, random.Random):
        t = g.getstate()[1]
        return "random", hash(t[:-1]), t[-1]
    s = g.get_state(legacy=False) if isinstance(g, np.random.RandomState) else g.bit_generator.state
    if s["bit_generator"] == "MT19937":
        return "numpy", hashlib.md5(s["state"]["key"].tobytes()).hexdigest(), s["state"]["pos"]
    if s["bit_generator"].startswith("PCG64"):
        return s["bit_generator"], s["state"]["inc"], s["state"]["state"]
    return s["bit_generator"], None, repr(s["state"])


class Watch:
    """per sampler: states of the generators seen to advance, and points evaluated"""
    def __init__(self):
        self.last, self.used, self.points, self.looks = {}, collections.defaultdict(set), collections.defaultdict(set), 0
        self.own, self.own_last, self.own_used = {}, {}, 0
        self.since, self.searching = time.process_time(), 0.0

    def look_at_own(self, who):
        # the search may take a tenth of the time
        now = time.process_time()
        if who not in self.own or self.searching < 0.1 * (now - self.since):
            g = own_generators()
            self.searching += time.process_time() - now
            if g is not None:
                self.own[who] = g
        for g in self.own.get(who, ()):
            kind, key, at = state_of(g)
            # a stream is known by its state: objects come and go
            name = (who, kind, key) if key is not None else (who, kind, id(g))
            old = self.own_last.get(name)
            self.own_last[name] = (g, at)      # kept alive: the identity stays its own
            if old is not None and old[1] != at:
                if (kind, at if key is None else key) not in self.used[who]:
                    self.own_used += 1
                self.used[who].add((kind, at if key is None else key))

    def look(self, who, p=None):
        self.looks += 1
        s = np.random.get_state()
        t = random.getstate()[1]
        now = (hashlib.md5(s[1].tobytes()).hexdigest(), s[2]), (hash(t[:-1]), t[-1])
        old = self.last.get(who)
        if old is not None:
            for name, a, b in zip(("numpy", "random"), old, now):
                if a[0] == b[0] and a[1] != b[1]:
                    self.used[who].add((name, a[0]))
        self.last[who] = now
        self.look_at_own(who)
        if p is not None:
            self.points[who].add(tuple(p.values))


def compare(bad, used, points, sent, tag):
    pairs = 0
    who = sorted(used)
    for i, a in enumerate(who):
        for b in who[i + 1:]:
            pairs += 1
            both = used[a] & used[b]
            if both:
                bad.append(("shared-stream", "%s: samplers %s and %s draw from the same stream of %s" % (tag, a, b, sorted(set(x[0] for x in both)))))
            same = (points[a] & points[b]) - sent
            if same:
                bad.append(("same-points", "%s: samplers %s and %s evaluate the same %d points, e.g. %s" % (tag, a, b, len(same), next(iter(same)))))
    return pairs


def sim_case(case):
    import pickle
    folder = tempfile.mkdtemp(prefix="c20-", dir=case["scratch"]) + "/out"
    os.makedirs(folder)
    bad, n, trace = [], collections.Counter(), []
    total, sent = Watch(), set()
    trouble = None

    def wrap(model, sim):
        w = Watch()
        box["w"] = w
        base_l, base_p = model.log_likelihood, model.log_prior

        def ll(p):
            if sim.current.aid:
                w.look(sim.current.aid - 1, p)
            return base_l(p)

        def lp(p):
            if sim.current.aid:
                w.look(sim.current.aid - 1)
            return base_p(p)
        model.log_likelihood, model.log_prior = ll, lp
        return model
    box = {}
    for st in H.play(dict(case, extra_model=wrap), folder):
        w = box["w"]
        trace.append(st.sim.trace_hash)
        if st.res.status not in ("ok", "exit", "killed"):
            trouble = "%s: %s" % (st.res.status, st.res.error)
            break
        for e in st.sim.events:
            if e[0] == "send" and e[1] == 0:
                o = pickle.loads(e[4])
                if hasattr(o, "values"):
                    sent.add(tuple(o.values))
        n["pairs"] += compare(bad, w.used, w.points, sent, "stage %d" % st.index)
        n["resumed_stages_with_draws"] += int(st.index > 0 and len(w.used) > 1 and any(k.startswith("sampler_") for k in st.files_before))
        n["generator_states"] += sum(map(len, w.used.values()))
        n["model_calls"] += w.looks
        n["states_of_generators_of_their_own"] += w.own_used
        for k in w.used:
            total.used[k] |= w.used[k]
            total.points[k] |= w.points[k]
    n["pairs"] += compare(bad, total.used, total.points, sent, "all stages together")
    shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
    return dict(trouble=trouble, bad=bad, n=dict(n), trace=tuple(trace), multi=len(total.used) > 1)


def real_case(case):
    """fresh run ended by an alarm, then resumed; the sampler processes keep diaries"""
    import cpnest
    top = tempfile.mkdtemp(prefix="c20-", dir=case["scratch"])
    main = os.getpid()
    bad, n = [], collections.Counter()
    sent = set()

    class Diary(M.Separable):
        pass
    model = runs.make(case["model"])
    base_l, base_n = model.log_likelihood, model.new_point
    w = {}

    def ll(p):
        pid = os.getpid()
        if pid != main:
            if pid not in w:
                w.clear()
                w[pid] = Watch()
                w["file"] = open(os.path.join(top, "stage%d-%d" % (stage[0], pid)), "a")
            x = w[pid]
            before = len(x.used[0])
            x.look(0, p)
            if len(x.used[0]) != before:
                for name, key in x.used[0]:
                    if (name, key) not in x.points["seen"]:
                        x.points["seen"].add((name, key))
                        w["file"].write(json.dumps([name, str(key) if name == "numpy" else repr(key)]) + "\n")
                w["file"].flush()
        return base_l(p)
    model.log_likelihood = ll
    stage = [0]
    for stage[0] in (0, 1, 2):
        kw = dict(case["kw"], output=os.path.join(top, "out"), seed=case["seed"] % 1000, resume=True)
        cp = cpnest.CPNest(model, **kw)
        try:
            if stage[0] < 2:
                # ends the run at some moment; if it has completed by then the stage is simply another one
                signal.signal(signal.SIGALRM, signal.SIG_IGN)
                signal.setitimer(signal.ITIMER_REAL, [0.9, 0.6][stage[0]])
            cp.run()
        except SystemExit:
            n["real_interrupts"] += 1
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        used = {}
        for f in os.listdir(top):
            if f.startswith("stage%d-" % stage[0]):
                used[f] = set(tuple(json.loads(l)) for l in open(os.path.join(top, f)))
                n["generator_states"] += len(used[f])
        n["pairs"] += compare(bad, used, collections.defaultdict(set), sent, "real stage %d" % stage[0])
        n["real_stages"] += 1
    n["real_samplers"] = len(used)
    shutil.rmtree(top, ignore_errors=True)
    return dict(trouble=None, bad=bad, n=dict(n), trace=0, multi=True)


def one(case):
    return sim_case(case) if case["kind"] == "sim" else real_case(case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=900 if chk.thorough else 40)):
        chk.case((runs.describe(dict(case, policy=case.get("policy"))), str(case.get("interrupts")), v["trace"]), v["multi"], sample=dict(case=runs.describe(case), observed=v["n"]))
    chk.require("pairs", 100)
    chk.require("resumed_stages_with_draws", 15)
    chk.require("real_stages", 3)
    chk.require("generator_states", 200)
