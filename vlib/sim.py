"""Deterministic execution of the real CPNest in one process.

multiprocessing.Process / Pipe / Value are replaced by a seeded scheduler while a Sim is active: every sampler process is
a thread, exactly one of them runs at a time (a baton), each has its own numpy and random state as a forked process would,
messages are pickled when sent and unpickled when received, and scheduling points are the pipe operations and the accesses to
shared values. Everything that crosses a boundary is recorded in Sim.events, in the order in which it happened.
A run in which nobody can ever send anything again is recognised from the state of the actors (Deadlock), not from a clock.
"""
import collections, itertools, os, pickle, random, sys, threading, time
import multiprocessing
import multiprocessing.connection
import multiprocessing.managers
import numpy as np


class Deadlock(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


class SimKill(BaseException):
    pass


class Actor:
    def __init__(self, sim, aid, name):
        self.sim, self.aid, self.name = sim, aid, name
        self.sem = threading.Semaphore(0)
        self.started = self.done = self.begun = False
        self.cond = None          # None: runnable; else callable
        self.parked = False       # at poll() with an empty inbox
        self.idle_polls = 0
        self.exc = None
        self.tb = None
        self.exitcode = None
        self.rng = None
        self.thread = None
        self.kill = None          # exception to raise at the next scheduling point
        self.moves = 0
        self.timer = False        # in a wait that ends by itself


class Policy:
    """How the scheduler chooses. freerun: chance that an idle sampler takes one step of its own instead of waiting;
    preempt: chance of a switch at an access to a shared value; skew: 0 = even, 1 = strongly prefers some actors;
    slow: index of a sampler that is only run when nobody else can"""
    def __init__(self, freerun=0.0, preempt=0.0, skew=0.0, slow=None):
        self.freerun, self.preempt, self.skew, self.slow = freerun, preempt, skew, slow

    def key(self):
        return "freerun=%g preempt=%g skew=%g slow=%s" % (self.freerun, self.preempt, self.skew, self.slow)


class Sim:
    def __init__(self, seed=0, policy=None, budget=400000, max_events=None):
        self.policy = policy or Policy()
        self.r = random.Random(seed)
        self.events = []
        self.conns = []
        self.values = []
        self.actors = [Actor(self, 0, "main")]
        self.current = self.actors[0]
        self.actors[0].started = True
        self.budget = budget          # scheduling steps
        self.steps = 0
        self.switches = 0
        self.trace_hash = 0
        self.active = False
        self.hooks = collections.defaultdict(list)   # name -> callables(sim, ...)
        self.weights = {}
        self.expired = 0              # timed waits that ended without anything having happened in between

    # ------------------------------------------------------------ events
    def log(self, kind, *args):
        if kind in ("send", "recv", "set", "exit"):
            self.expired = 0
        self.events.append((kind, self.current.aid) + args)

    def fire(self, name, *args):
        for h in self.hooks.get(name, ()):
            h(self, *args)

    # ------------------------------------------------------------ scheduling
    def _save(self, a):
        a.rng = (np.random.get_state(), random.getstate())

    def _restore(self, a):
        if a.rng is not None:
            np.random.set_state(a.rng[0])
            random.setstate(a.rng[1])

    def _choose(self, cands):
        if len(cands) == 1:
            return cands[0]
        p = self.policy
        if p.slow is not None:
            fast = [a for a in cands if a.aid != p.slow + 1]
            if fast:
                cands = fast
        if p.skew:
            w = [self.weights.setdefault(a.aid, 1.0 if self.r.random() > p.skew else 0.05) for a in cands]
            return self.r.choices(cands, w)[0]
        return self.r.choice(cands)

    def reschedule(self):
        """called by the running actor (whose .cond says what it waits for); returns when it may go on"""
        cur = self.current
        self.steps += 1
        if self.steps > self.budget and not self.actors[0].kill:
            self.actors[0].kill = BudgetExceeded("%d scheduling steps" % self.steps)
            self.actors[0].cond = None
        while True:
            alive = [a for a in self.actors if a.started and not a.done]
            cands = [a for a in alive if a.kill or a.cond is None or a.cond()]
            parked = [a for a in alive if a.parked and a not in cands]
            if parked and (not cands or self.r.random() < self.policy.freerun):
                if cands:
                    a = self.r.choice(parked)
                else:
                    a = min(parked, key=lambda x: x.idle_polls)
                    if a.idle_polls >= 4:
                        a = None
                if a is not None:
                    cands = [a]
            if not cands:
                # nobody can go on: a timed wait expires, unless that has been of no use for long
                timed = [a for a in alive if a.timer]
                if timed and self.expired < 25:
                    self.expired += 1
                    timed[0].timer = False
                    cands = timed[:1]
            if not cands:
                main = self.actors[0]
                if main.done:
                    return "dead"
                main.kill = Deadlock(self.describe())
                cands = [main]
            nxt = self._choose(cands)
            if nxt is not cur:
                self._switch(cur, nxt)
            if cur.kill:
                e, cur.kill = cur.kill, None
                cur.cond, cur.parked = None, False
                raise e
            return

    def _switch(self, cur, nxt):
        self.switches += 1
        self.trace_hash = hash((self.trace_hash, nxt.aid, len(self.events)))
        self._save(cur)
        self.current = nxt
        nxt.sem.release()
        if not cur.done:
            try:
                cur.sem.acquire()
            except BaseException:
                # a signal handler raised while the main actor waited: it has to own the baton before going on
                raise
            self._restore(cur)

    def describe(self):
        out = []
        for a in self.actors:
            st = "done" if a.done else "parked at an empty inbox" if a.parked else "waiting" if a.cond else "runnable"
            out.append("%s: %s%s" % (a.name, st, " (%s)" % a.what if a.cond and getattr(a, "what", None) else ""))
        return "; ".join(out)

    def wait(self, cond, what):
        cur = self.current
        if cond():
            return
        cur.cond, cur.what = cond, what
        try:
            self.reschedule()
        finally:
            cur.cond, cur.what = None, None

    def timed_wait(self, cond, what, timeout):
        cur = self.current
        if cond():
            return
        cur.cond, cur.what, cur.timer = (lambda: cond() or not cur.timer), what, True
        if timeout is None:
            cur.cond, cur.timer = cond, False
        try:
            self.reschedule()
        finally:
            cur.cond, cur.what, cur.timer = None, None, False

    def preempt(self):
        if self.active and self.policy.preempt and self.r.random() < self.policy.preempt:
            self.reschedule()

    # ------------------------------------------------------------ patching
    def __enter__(self):
        mp = multiprocessing
        self._saved = [(mp, n, getattr(mp, n)) for n in ("Process", "Pipe", "Value")]
        self._saved += [(multiprocessing.managers.BaseManager, "start", multiprocessing.managers.BaseManager.start),
                        (multiprocessing.connection, "wait", multiprocessing.connection.wait),
                        (os, "getpid", os.getpid)]
        sim, real_pid = self, os.getpid()
        mp.Process = lambda *a, **k: SimProcess(sim, *a, **k)
        mp.Pipe = lambda duplex=True: sim.pipe()
        mp.Value = lambda t, *args, **k: SimValue(sim, t, args[0] if args else 0)
        multiprocessing.managers.BaseManager.start = lambda self_, *a, **k: None
        multiprocessing.connection.wait = self._conn_wait
        os.getpid = lambda: real_pid if sim.current.aid == 0 else 1000000 + sim.current.aid
        self.active = True
        return self

    def __exit__(self, *exc):
        self.shutdown()
        for o, n, v in self._saved:
            setattr(o, n, v)
        self.active = False
        return False

    def pipe(self):
        i = len(self.conns) // 2
        a, b = SimConn(self, i, 0), SimConn(self, i, 1)
        a.peer, b.peer = b, a
        for c in (a, b):
            c.holders.add(self.current.aid)
            self.conns.append(c)
        return a, b

    def _conn_wait(self, objs, timeout=None):
        def ready():
            return [o for o in objs if (o.ready() if isinstance(o, SimConn) else o.actor.done)]
        if timeout is not None and not ready():
            self.timed_wait(lambda: bool(ready()), "connection.wait", timeout) if timeout > 0 else self.reschedule()
            return ready()
        self.wait(lambda: bool(ready()), "connection.wait")
        return ready()

    # ------------------------------------------------------------ ending
    def drain(self):
        """the main actor has ended: let the others run until they end too; returns those that cannot"""
        main = self.actors[0]
        for _ in range(100):
            left = [a for a in self.actors[1:] if a.started and not a.done]
            if not left:
                return []
            try:
                self.wait(lambda: all(a.done for a in left), "exit of the samplers")
            except Deadlock:
                return [a.name for a in self.actors[1:] if a.started and not a.done]
            except BudgetExceeded:
                return [a.name for a in self.actors[1:] if a.started and not a.done]
        return [a.name for a in self.actors[1:] if a.started and not a.done]

    def shutdown(self):
        self.policy = Policy()
        for a in self.actors[1:]:
            if a.started and not a.done:
                a.kill = SimKill()
                self.current = a
                a.sem.release()
                a.thread.join(20)
        self.current = self.actors[0]


class SimConn:
    def __init__(self, sim, index, side):
        self.sim, self.index, self.side = sim, index, side
        self.inbox = collections.deque()
        self.holders = set()
        self.closed_by = set()

    def _check(self):
        if self.sim.current.aid in self.closed_by:
            raise OSError("handle is closed")

    def eof(self):
        live = [h for h in self.peer.holders if not self.sim.actors[h].done]
        return not live

    def ready(self):
        return bool(self.inbox) or self.eof()

    def send(self, obj):
        sim = self.sim
        self._check()
        sim.fire("before_send", self, obj)
        data = pickle.dumps(obj)
        sim.log("send", self.index, self.side, data)
        self.peer.inbox.append(data)
        sim.fire("after_send", self, obj)
        sim.preempt()

    def recv(self):
        sim = self.sim
        self._check()
        sim.fire("before_recv", self)
        if not self.inbox:
            sim.wait(self.ready, "recv on pipe %d" % self.index)
        if not self.inbox:
            raise EOFError
        data = self.inbox.popleft()
        sim.log("recv", self.index, self.side, data)
        obj = pickle.loads(data)
        sim.fire("after_recv", self, obj)
        return obj

    def poll(self, timeout=0.0):
        sim = self.sim
        self._check()
        cur = sim.current
        if self.ready():
            cur.idle_polls = 0
            sim.preempt()
            return True
        if cur.aid == 0:
            if timeout is None or timeout > 0:
                sim.timed_wait(self.ready, "timed poll on pipe %d" % self.index, timeout)
            else:
                sim.reschedule()
            return self.ready()
        cur.parked, cur.cond, cur.what = True, self.ready, "poll"
        try:
            sim.reschedule()
        finally:
            cur.parked, cur.cond, cur.what = False, None, None
        if self.ready():
            cur.idle_polls = 0
            return True
        cur.idle_polls += 1
        sim.log("idle", self.index, self.side)
        return False

    def close(self):
        self.closed_by.add(self.sim.current.aid)
        self.holders.discard(self.sim.current.aid)

    @property
    def closed(self):
        return self.sim.current.aid in self.closed_by

    def fileno(self):
        return 1000 + 2 * self.index + self.side

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimLock:
    def __init__(self, sim):
        self.sim, self.owner, self.depth = sim, None, 0

    def acquire(self, block=True, timeout=None):
        sim, me = self.sim, self.sim.current.aid
        if self.owner not in (None, me):
            if not block:
                return False
            sim.wait(lambda: self.owner is None, "lock")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        assert self.owner == self.sim.current.aid, "lock released by another process"
        self.depth -= 1
        if not self.depth:
            self.owner = None
            self.sim.preempt()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimValue:
    """multiprocessing.Value with its lock; .value is a scheduling point on both sides of the access"""
    def __init__(self, sim, typecode, init):
        self.sim, self.v, self.index = sim, init, len(sim.values)
        self.is_int = "int" in getattr(typecode, "__name__", str(typecode))
        self._lock = SimLock(sim)
        sim.values.append(self)

    @property
    def value(self):
        sim = self.sim
        v = self.v
        if sim.current.aid:
            sim.preempt()
        else:
            sim.log("get", self.index, v)
        return v

    @value.setter
    def value(self, x):
        sim = self.sim
        if sim.current.aid:
            sim.preempt()
        x = int(x) if self.is_int else float(x)
        sim.log("set", self.index, self.v, x)
        if x != self.v:
            for a in sim.actors:        # what they look at between polls has changed
                a.idle_polls = 0
        self.v = x

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)


class SimProcess:
    def __init__(self, sim, group=None, target=None, name=None, args=(), kwargs=None, daemon=None, **kw):
        self.sim, self.target, self.args, self.kwargs = sim, target, args, kwargs or {}
        self.actor = Actor(sim, len(sim.actors), name or "sampler%d" % (len(sim.actors) - 1))
        self.daemon = daemon
        self.name = self.actor.name
        sim.actors.append(self.actor)

    def start(self):
        sim, a = self.sim, self.actor
        me = sim.current.aid
        for c in sim.conns:
            if me in c.holders:
                c.holders.add(a.aid)
        # a forked child has the parent's numpy state and a reseeded random module
        py = random.Random(sim.r.getrandbits(64)).getstate()
        a.rng = (np.random.get_state(), py)
        a.thread = threading.Thread(target=self._body, daemon=True)
        a.started = True
        sim.log("start", a.aid)
        a.thread.start()
        sim.preempt()

    def _body(self):
        sim, a = self.sim, self.actor
        a.sem.acquire()
        try:
            if a.kill:
                raise a.kill
            sim._restore(a)
            a.begun = True
            self.target(*self.args, **self.kwargs)
            a.exitcode = 0
        except SystemExit as e:
            a.exitcode = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except SimKill:
            a.exitcode = -9
            a.done = True
            return                      # shutdown: nobody to hand over to
        except _Terminated as e:
            a.exitcode, a.exc = -15, e
        except BaseException as e:
            import traceback
            a.exitcode, a.exc, a.tb = 1, e, traceback.format_exc()
        a.done = True
        sim.expired = 0
        sim.events.append(("exit", a.aid, a.exitcode))
        if sim.reschedule() == "dead":
            return

    def join(self, timeout=None):
        if timeout is not None:
            self.sim.timed_wait(lambda: self.actor.done, "timed join", timeout)
            return
        self.sim.wait(lambda: self.actor.done, "join of " + self.name)

    def is_alive(self):
        return self.actor.started and not self.actor.done

    @property
    def exitcode(self):
        return self.actor.exitcode

    @property
    def pid(self):
        return 1000000 + self.actor.aid if self.actor.started else None

    @property
    def sentinel(self):
        return self

    def terminate(self):
        self.sim.log("terminate", self.actor.aid)
        if self.actor.started and not self.actor.done:
            self.actor.kill = _Terminated()

    kill = terminate

    def close(self):
        pass


class _Terminated(BaseException):
    pass


# ---------------------------------------------------------------- running CPNest
class Result:
    """what one simulated run produced"""
    status = None        # 'ok', 'exit', 'crash', 'deadlock', 'budget'
    code = None
    error = None
    cp = None
    leftover = ()


def run_cpnest(model, kwargs, sim, before_run=None):
    """Construct and run the real CPNest under the (entered) sim."""
    from cpnest import CPNest
    res = Result()
    res.sim = sim
    try:
        res.cp = CPNest(model, **kwargs)
        if before_run is not None:
            before_run(res.cp)
        res.cp.run()
        res.status = "ok"
    except Deadlock as e:
        res.status, res.error = "deadlock", str(e)
    except BudgetExceeded as e:
        res.status, res.error = "budget", str(e)
    except SystemExit as e:
        res.status, res.code = "exit", e.code
    except Exception as e:
        import traceback
        res.status, res.error = "crash", traceback.format_exc()
    if res.status in ("ok", "exit", "crash"):
        res.leftover = sim.drain()
    res.worker_errors = [a.tb for a in sim.actors[1:] if a.tb and not isinstance(a.exc, _Terminated)]
    res.exitcodes = [a.exitcode for a in sim.actors[1:]]
    if res.error and res.worker_errors:
        res.error += "\nworker: " + res.worker_errors[0]
    return res


def shared_value(obj):
    """the simulated shared value behind obj, however the code under test wraps it"""
    todo, seen = [obj], set()
    while todo:
        o = todo.pop(0)
        if isinstance(o, SimValue):
            return o
        if id(o) not in seen and len(seen) < 200:
            seen.add(id(o))
            todo += list(getattr(o, "__dict__", {}).values())
    raise LookupError("no shared value behind %r" % (obj,))


def shared_index(obj):
    """its number in the log of the simulation"""
    return shared_value(obj).index
