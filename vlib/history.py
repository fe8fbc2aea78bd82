"""Histories of a run in the simulation: interrupted by real signals or a crash at chosen moments, resumed, and so on until it completes."""
import os, pickle, random, signal, sys, threading
import numpy as np
from . import sim as S
from . import runs, nsref

SIGS = ["SIGTERM", "SIGINT", "SIGALRM", "SIGQUIT", "SIGUSR1", "SIGUSR2"]


class Crash(BaseException):
    """the main process is gone"""


class Stage:
    pass


def ns_digest(ns, values=True):
    """what an integrator knows, in comparable form"""
    st = ns.state
    d = dict(initialised=bool(ns.initialised),
             live=[nsref.key(p) if p is not None else None for p in ns.params],
             recorded=[nsref.key(p) for p in ns.nested_samples],
             indices=[float(x) for x in ns.insertion_indices],
             rolling_p=[float(x) for x in ns.rolling_p],
             iteration=int(ns.iteration), condition=float(ns.condition), accepted=int(ns.accepted), rejected=int(ns.rejected),
             nlive=int(ns.Nlive), state_nlive=int(st.nlive),
             logZ=float(st.logZ), info=float(st.info), logw=float(st.logw), state_iteration=int(st.iteration),
             logLs=[float(x) for x in st.logLs], log_vols=[float(x) for x in st.log_vols])
    return d


def sampler_digest(s):
    d = dict(kind=type(s).__name__, ensemble=[nsref.key(p) for p in s.evolution_points], chain=[nsref.key(p) for p in s.samples],
             initialised=bool(s.initialised), seed=s.seed)
    for a in ("Nmcmc", "Nmcmc_exact", "acceptance", "sub_acceptance", "mcmc_accepted", "mcmc_counter", "maxmcmc", "poolsize", "mu"):
        if hasattr(s, a):
            d[a] = float(getattr(s, a))
    props = getattr(s.proposal, "proposals", None)
    d["proposals"] = [type(p).__name__ for p in props] if props is not None else [type(s.proposal).__name__]
    for i, p in enumerate(props or []):
        for a in ("dt", "L", "base_dt", "base_L"):
            if isinstance(getattr(p, a, None), (int, float, np.number)):
                d["%s%d" % (a, i)] = float(getattr(p, a))
    return d


def differences(a, b, skip=()):
    out = []
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        x, y = a.get(k, "(nothing)"), b.get(k, "(nothing)")
        if x != y and not (isinstance(x, float) and isinstance(y, float) and x != x and y != y):
            if isinstance(x, list) and isinstance(y, list):
                i = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v and not (u != u and v != v)), min(len(x), len(y)))
                if i == len(x) == len(y):
                    continue
                out.append("%s: %d and %d entries, first difference at %d" % (k, len(x), len(y), i))
            else:
                out.append("%s: %r and %r" % (k, x, y))
    return out


def stamp(path):
    try:
        st = os.stat(path)
        return (st.st_ino, st.st_mtime_ns, st.st_size)
    except OSError:
        return None


def load_ns(folder):
    with open(os.path.join(folder, "nested_sampler_resume.pkl"), "rb") as f:
        return pickle.load(f)


class Interrupt:
    """one interruption: after `ops` pipe operations of the main process and then `lines` lines of package code executed by it"""
    def __init__(self, spec, sim, package):
        self.spec, self.sim, self.package = spec, sim, package
        self.ops, self.lines = spec["ops"], spec["lines"]
        self.armed = self.fired = False
        self.where = None
        self.best, self.best_now = None, None       # shared best likelihood when it fired
        self.left, self.hits = {}, []

    def hook(self, sim, *a):
        if sim.current.aid == 0 and not self.fired and self.armed:
            self.ops -= 1
            if self.ops == 0 and not self.lines:
                self.fire("pipe operation")

    def fire(self, where):
        self.fired, self.where = True, where
        sys.settrace(None)
        self.best = self.best_now() if self.best_now else None
        if self.spec["kind"] == "crash":
            raise Crash()
        if self.spec["kind"] == "group":
            from cpnest.cpnest import CheckPoint
            lines = self.spec.get("sampler_lines")
            self.left = {}
            for i, a in enumerate(self.sim.actors[1:]):
                if a.begun and not a.done:
                    if lines:
                        self.left[a.aid] = lines[i % len(lines)]
                    else:
                        a.kill = CheckPoint()
            if self.left:
                # every sampler is interrupted at a line of its own, not in the middle of a shared value
                within = self.spec.get("within")

                def inside(f):
                    while f is not None and f.f_code.co_name != within:
                        f = f.f_back
                    return f is not None

                def loc(f, e, arg):
                    aid = self.sim.current.aid
                    if e == "line" and aid in self.left and (not within or inside(f)):
                        self.left[aid] -= 1
                        if self.left[aid] <= 0:
                            del self.left[aid]
                            self.hits.append("%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_lineno))
                            raise CheckPoint()
                    return loc

                def glob(f, e, arg):
                    name = f.f_code.co_filename
                    return loc if name.startswith(self.package) and not name.endswith("cpnest.py") and self.left else None
                threading.settrace_all_threads(glob)
                for tid, f in sys._current_frames().items():
                    if tid in [a.thread.ident for a in self.sim.actors[1:] if a.aid in self.left]:
                        while f is not None:
                            if f.f_code.co_filename.startswith(self.package) and not f.f_code.co_filename.endswith("cpnest.py"):
                                f.f_trace = loc
                            f = f.f_back
                sys.settrace(None)
                threading.settrace(None)
        signal.raise_signal(getattr(signal, self.spec["sig"]))

    def glob(self, frame, event, arg):
        if self.fired or not frame.f_code.co_filename.startswith(self.package):
            return None
        return self.local

    def local(self, frame, event, arg):
        if self.fired:
            return None
        if event == "line" and self.ops <= 0 and self.sim.current.aid == 0:
            if self.lines <= 0:
                self.fire("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            self.lines -= 1
        return self.local


def play(case, folder, on_stage=None, extra_hooks=None):
    """case: as for runs.simulate, with `interrupts`: list of specs, or None for a stage without one. Yields the stages."""
    import cpnest
    package = os.path.dirname(cpnest.__file__)
    ints = list(case["interrupts"]) + [None]
    for k, spec in enumerate(ints):
        st = Stage()
        st.spec, st.index = spec, k
        c = dict(case, seed=case["seed"] + 7919 * k, kw=dict(case["kw"], **(case.get("resume_kw", {}) if k else {}), resume=True, seed=case["seed"] % 100000 + 1, output=folder))
        st.files_before = {f: stamp(os.path.join(folder, f)) for f in os.listdir(folder)} if os.path.isdir(folder) else {}
        st.interrupt = None

        def before_run(cp, st=st, spec=spec):
            st.cp = cp
            st.samplers = runs.samplers(cp)
            st.start_ns = ns_digest(cp.NS)
            st.start_max, st.start_min = cp.manager.logLmax.value, cp.manager.logLmin.value
            st.start_samplers = [sampler_digest(s) for s in st.samplers]
            if on_stage:
                on_stage(st)
            if spec is not None:
                st.interrupt.armed = True
                st.interrupt.best_now = lambda v=S.shared_value(cp.manager.logLmax): v.v
                sys.settrace(st.interrupt.glob)

        hooks = {}
        if spec is not None:
            it = Interrupt(spec, None, package)
            st.interrupt = it

            def first(sim, *a, it=it):
                it.sim = sim
                it.hook(sim, *a)
            hooks = dict(before_send=first, after_send=first, before_recv=first, after_recv=first)
        random.seed(case["seed"])
        try:
            try:
                st.res, st.sim, st.model = _simulate(c, folder, hooks, before_run, st, extra_hooks)
            except Crash:
                st.res = S.Result()
                st.res.status = "killed"
        finally:
            sys.settrace(None)
        st.fired = bool(st.interrupt and st.interrupt.fired)
        st.end_ns = ns_digest(st.cp.NS) if hasattr(st, "cp") else None
        st.end_samplers = [sampler_digest(s) for s in st.samplers] if hasattr(st, "cp") else []
        st.files_after = {f: stamp(os.path.join(folder, f)) for f in os.listdir(folder)}
        yield st
        if st.res.status not in ("exit", "killed"):
            return


def _simulate(case, folder, hooks, before_run, st, extra):
    model = runs.make(case["model"])
    np.random.seed(case["seed"] % (2 ** 32))
    sim = S.Sim(case["seed"], S.Policy(**case.get("policy", {})), budget=case.get("budget", 60000))
    st.sim = sim
    if st.interrupt:
        st.interrupt.sim = sim
    for h in (hooks, extra or {}):
        for k, v in h.items():
            sim.hooks[k].append(v)
    kw = dict(maxmcmc=20, poolsize=20, nlive=20, nthreads=1, verbose=0)
    kw.update(case["kw"])
    st.kw = kw
    if case.get("extra_model"):
        model = case["extra_model"](model, sim)
    with sim:
        try:
            res = S.run_cpnest(model, kw, sim, before_run)
        except Crash:
            res = S.Result()
            res.status, res.leftover, res.worker_errors, res.exitcodes = "killed", (), [], []
    res.kw = kw
    return res, sim, model
