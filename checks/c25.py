"""C25: real runs in which a sampler dies, or the main process does, at chosen moments; what remains is observed."""
import collections, os, random, shutil, signal, sys, tempfile, time
import numpy as np
from vlib import procs, models as M
from vlib.check import forked

RULE = ("one case = one run of real processes in which chosen samplers (or the main process) die in a chosen way at a chosen stage; distinct = distinct (mix, way, stage, victims, resume); "
        "non-trivial = the fault took place before sampling was complete")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring with injected faults: deaths of live processes; exit status, outcome of run() and /proc process table observed"
NOTE = ("Stages are fixed by the number of replies the main process has received. 'Bounded' is decided by blocked processes after 45 s where a second or two is normal, or by 150 s in any case; "
        "the helper process of multiprocessing's manager is not a sampler and is not judged when the main process is killed.")
ASSUMPTIONS = ["a run without any processor time for 6 s after 45 s never ends"]
WAYS = ["raise-likelihood", "raise-prior", "exit3", "sysexit0", "SIGKILL", "SIGSEGV", "memory", "return-text", "SIGTERM", "SIGUSR1"]


class Boom(Exception):
    pass


ERRORS = [Boom, ValueError, OSError, KeyError, ZeroDivisionError, RuntimeError, FloatingPointError, EOFError, BrokenPipeError, TypeError, AssertionError, IndexError, KeyboardInterrupt]


def cases(chk):
    r = random.Random(chk.seed * 472882027 + 25)
    out = []
    mixes = [dict(nthreads=1), dict(nthreads=3), dict(nthreads=2, nslice=1), dict(nthreads=2, nslice=2), dict(nthreads=2, nhamiltonian=1), dict(nthreads=3, nslice=1, nhamiltonian=1), dict(nthreads=4)]
    stages = ["init", "fill", "loop", "loop", "late"]
    k = 0
    raising = 0
    for i in range(320 if chk.thorough else 62):
        mix = mixes[i % len(mixes)]
        n = mix["nthreads"]
        st = stages[(i // 2) % len(stages)]
        at = dict(init=0, fill=r.randrange(1, 19), loop=20 + r.randrange(1, 20), late=20 + r.randrange(20, 60))[st]
        who = r.choice([[r.randrange(n)], [r.randrange(n)], [0], [n - 1], list(range(n))])
        way = WAYS[(i + i // 8) % len(WAYS)] if i < 280 and (i < 48 or chk.thorough) else ["raise-likelihood", "raise-prior"][i % 2]
        raising += way.startswith("raise")
        prior = st in ("init", "fill") and r.random() < .25
        if prior and at:
            at = min(at, 10)          # with 20 points to deliver and 4 samplers at most, each is asked again
        out.append(dict(kind="sampler", way=way, stage=st, at=at, who=who, error=raising % len(ERRORS), resume=r.random() < .4 or way == "SIGTERM", blocked=r.random() < .3,
                        kw=dict(mix, nlive=20, maxmcmc=10, poolsize=20, verbose=r.choice([0, 0, 1, 3]), prior_sampling=prior), seed=r.randrange(1, 10 ** 6)))
    for i in range(60 if chk.thorough else 12):
        mix = mixes[i % len(mixes)]
        st = ["init", "fill", "loop"][i % 3]
        at = dict(init=0, fill=r.randrange(1, 19), loop=20 + r.randrange(1, 20))[st]
        out.append(dict(kind="main", way=["SIGKILL", "SIGKILL", "_exit"][i // 3 % 3], stage=st, at=at, who=[], resume=r.random() < .4, blocked=False,
                        kw=dict(mix, nlive=20, maxmcmc=10, poolsize=20, verbose=r.choice([0, 0, 1])), seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def die(way, board, error=Boom):
    board.fired.value += 1
    if way in ("raise-likelihood", "raise-prior"):
        raise error("on purpose")
    if way == "memory":
        raise MemoryError("on purpose")
    if way == "exit3":
        os._exit(3)
    if way == "sysexit0":
        sys.exit(0)
    if way == "return-text":
        return "not a number"
    os.kill(os.getpid(), getattr(signal, way))
    time.sleep(0.2 if way in ("SIGTERM", "SIGUSR1") else 60)      # with resume these two are handled
    return 0.0


def model_of(board, case):
    m = M.gauss(d=2)
    way, who, error = case["way"], set(case["who"]), ERRORS[case.get("error", 0)]

    def due(i):
        if case["kind"] != "sampler" or os.getpid() == board.main.value:
            return False
        board.calls[i] += 1
        if case["stage"] == "init":
            return i in who and board.calls[i] > 15
        return i in who and board.nrecv.value >= case["at"]

    class Real(type(m)):
        def log_likelihood(self, p):
            if os.getpid() != board.main.value:
                if due(board.me()) and way != "raise-prior":
                    v = die(way, board, error)
                    if v is not None:
                        return v
            return M.Separable.log_likelihood(self, p)

        def log_prior(self, p):
            if way == "raise-prior" and os.getpid() != board.main.value and due(board.me()):
                die(way, board, error)
            return super(Real, self).log_prior(p)
    m.__class__ = Real
    return m


def run_case(case):
    top = tempfile.mkdtemp(prefix="c25-", dir=case["scratch"])
    folder = os.path.join(top, "out")
    bad, n = [], collections.Counter()
    desc = "%s dies: %s at stage %s (reply %d), samplers %s, resume=%s, %s" % (case["kind"], case["way"], case["stage"], case["at"], case["who"], case["resume"], case["kw"])
    board = procs.Board()
    kw = dict(case["kw"], output=folder, resume=case["resume"], seed=case["seed"] % 1000)

    def kill_main():
        board.fired.value += 1
        if case["way"] == "_exit":
            os._exit(1)
        os.kill(os.getpid(), signal.SIGKILL)
        time.sleep(60)

    def on_recv(k):
        if case["kind"] == "main" and case["at"] and k == case["at"]:
            kill_main()

    def on_poll(k):
        if case["kind"] == "main" and not case["at"] and k == 1:
            end = time.time() + 20          # when all samplers are at work
            while len(board.samplers()) < kw["nthreads"] and time.time() < end:
                time.sleep(0.002)
            kill_main()

    def body():
        import cpnest
        board.main.value = os.getpid()
        procs.count_messages(board, on_recv, on_poll)
        cp = cpnest.CPNest(model_of(board, case), **kw)
        cp.run()
        board.recorded.value = 1
        print("RUN RETURNED")
        sys.stdout.flush()
    err = os.path.join(top, "err")
    pid = procs.launch(body, err)
    if case["kind"] == "main":
        w = None
        t0 = time.time()
        code = None
        while time.time() < t0 + 120:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                code = os.waitstatus_to_exitcode(st)
                break
            time.sleep(0.005)
        if not board.fired.value:
            n["not_hit"] += 1
        else:
            n["main_killed"] += 1
            pids = board.samplers()
            n["samplers_orphaned"] += len(pids)
            end = time.time() + 45
            while time.time() < end and any(procs.alive(p) for p in pids):
                time.sleep(0.05)
            left = [p for p in pids if procs.alive(p)]
            n["orphans_ended"] += len(pids) - len(left)
            if left:
                # a last look whether they only are slow
                time.sleep(10)
                left = [p for p in left if procs.alive(p)]
            if left:
                bad.append(("orphans", "%s: %d of %d samplers are still there %.0f s after the main process was killed" % (desc, len(left), len(pids), time.time() - t0)))
    else:
        w = procs.watch(pid)
        text = open(err, errors="replace").read()[-2500:] if os.path.exists(err) else ""
        done = board.recorded.value == 1
        if not board.fired.value:
            n["not_hit"] += 1
            if w.code != 0:
                bad.append(("failed", "%s: the run failed without a fault: %s %s" % (desc, w.code, text)))
        else:
            n["deaths"] += board.fired.value
            n["stage_" + case["stage"]] += 1
            n["way_" + case["way"]] += 1
            if w.code is None:
                bad.append(("hang", "%s: still there after %.0f s%s, processes %s; %s" % (desc, w.seconds, ", doing nothing" if w.idle else "", w.left, text)))
            else:
                # the fault may have come when every reply needed had been sent
                total = board.nrecv.value
                n["seconds_to_end_max"] = max(n["seconds_to_end_max"], int(w.seconds))
                if done and case["stage"] != "late":
                    bad.append(("no-error", "%s: run() returned normally after %d replies; %s" % (desc, total, text)))
                elif not done and w.code == 0:
                    bad.append(("no-error", "%s: the process ends with status 0; %s" % (desc, text)))
                elif not done and w.code == 130 and case["way"] not in ("SIGTERM", "SIGUSR1"):
                    bad.append(("status", "%s: the process ends with status 130 as if it had been told to checkpoint; %s" % (desc, text)))
                else:
                    n["errors_seen"] += int(not done)
                    n["completed_all_the_same"] += int(done)
                if w.left:
                    bad.append(("process-left", "%s: processes left behind: %s; %s" % (desc, w.left, text)))
    procs.destroy(pid)
    shutil.rmtree(top, ignore_errors=True)
    return dict(bad=bad, n=dict(n))


def run(chk):
    worst = 0
    for o in forked(cases(chk), run_case, timeout=400, nproc=6):
        c = {k: v for k, v in o.case.items() if k != "scratch"}
        if o.status != "ok":
            chk.inconclusive("%s: %s %s" % (c, o.status, o.value))
            continue
        for mech, msg in o.value["bad"]:
            chk.violation(mech, msg, case=c)
        worst = max(worst, o.value["n"].pop("seconds_to_end_max", 0))
        for k, v in o.value["n"].items():
            chk.count(k, v)
        chk.case(str(c), not o.value["n"].get("not_hit"), sample=str(c))
    chk.extra["seconds_until_the_slowest_run_ended"] = worst
    chk.require("errors_seen", 15)
    chk.require("samplers_orphaned", 8)
