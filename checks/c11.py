"""C11: runs with real processes get signals at chosen moments; exit status, process table, checkpoints and handlers are observed."""
import collections, os, pickle, random, shutil, signal, sys, tempfile, threading, time, traceback
import numpy as np
from vlib import runs, procs, history as H, models as M
from vlib.check import forked
from checks.c09 import check_state

RULE = ("one case = one run of real processes hit by one signal (kind, moment, main process or whole group), or one check that the handlers are in place only while a run with resume "
        "is executed, or a process ended by a signal at chosen bytecodes of its accesses to the shared values; distinct = distinct (mix, signal, target, moment); all non-trivial")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: signals injected into live process groups; exit status, /proc process table and checkpoint files observed"
NOTE = ("Moments are chosen by the number of replies the main process has received (plus a delay or a number of lines), so that every stage is hit on purpose. 'Promptly' is decided "
        "by blocked processes after 45 s where a fraction of a second is normal, or by 150 s in any case.")
ASSUMPTIONS = ["a run without any processor time for 6 s after 45 s never ends"]
SIGS = ["SIGTERM", "SIGINT", "SIGALRM", "SIGQUIT", "SIGUSR1", "SIGUSR2"]


def cases(chk):
    r = random.Random(chk.seed * 715827883 + 11)
    out = []
    mixes = [dict(nthreads=1), dict(nthreads=3), dict(nthreads=2, nslice=1), dict(nthreads=2, nslice=2), dict(nthreads=2, nhamiltonian=1), dict(nthreads=3, nslice=1, nhamiltonian=1)]
    stages = ["init", "fill", "loop", "loop", "late-init", "start"]
    for i in range(216 if chk.thorough else 42):
        mix = mixes[i % len(mixes)]
        st = stages[(i + i // 6) % len(stages)]
        nlive = 20
        k = dict(init=0, start=0, fill=r.randrange(1, nlive - 1), loop=nlive + r.randrange(2, 25))
        k["late-init"] = 0
        out.append(dict(kind="signal", stage=st, at=k[st], delay=r.choice([0, 0.05, 0.2]) if st == "late-init" else 0, lines=r.choice([0, 0, r.randrange(40)]) if st in ("fill", "loop") else 0,
                        sig=SIGS[(i + i // 6) % 6], group=r.random() < .4, external=r.random() < .2, again=st == "loop" and r.random() < .5, twice=r.random() < .15,
                        kw=dict(mix, nlive=nlive, maxmcmc=10, poolsize=20, verbose=r.choice([0, 0, 1, 3]), periodic_checkpoint_interval=r.choice([None, None, 0.05])), seed=r.randrange(1, 10 ** 6)))
    for i in range(48 if chk.thorough else 10):
        # a sampler gets the signal alone, while it computes a likelihood
        mix = mixes[i % len(mixes)]
        st = ["init", "fill", "loop", "loop"][(i + i // 4) % 4]
        out.append(dict(kind="alone", stage=st, at=dict(init=0, fill=r.randrange(1, 19), loop=20 + r.randrange(1, 40))[st], sig=SIGS[(i + i // 6) % 6], who=r.randrange(mix["nthreads"]),
                        kw=dict(mix, nlive=20, maxmcmc=10, poolsize=20, verbose=r.choice([0, 0, 1, 3]), periodic_checkpoint_interval=r.choice([None, None, 0.05])), seed=r.randrange(1, 10 ** 6)))
    for i in range(12 if chk.thorough else 6):
        out.append(dict(kind="handlers", resume=bool(i % 2), sig=SIGS[i % 6], kw=dict(mixes[i % len(mixes)], nlive=15, maxmcmc=8, poolsize=20), seed=r.randrange(1, 10 ** 6)))
    for i in range(18 if chk.thorough else 6):
        out.append(dict(kind="access", who=["mhs", "sli", "main"][i % 3], sig=SIGS[i % 6], points=250 if chk.thorough else 80, seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


def model_of(board, slow=0):
    m = M.gauss(d=2)
    base = m.log_likelihood

    class Real(type(m)):
        def log_likelihood(self, p):
            if os.getpid() != board.main.value:
                i = board.me()
                board.calls[i] += 1
                if slow:
                    time.sleep(slow)
            return M.Separable.log_likelihood(self, p)
    m.__class__ = Real
    return m


def load(path):
    with open(path, "rb") as f:
        return pickle.load(f)


def signal_case(case):
    top = tempfile.mkdtemp(prefix="c11-", dir=case["scratch"])
    folder = os.path.join(top, "out")
    bad, n = [], collections.Counter()
    desc = "%s to the %s, stage %s (reply %d), %s" % (case["sig"], "group" if case["group"] else "main process", case["stage"], case["at"], case["kw"])
    board = procs.Board()
    sig = getattr(signal, case["sig"])
    package = os.path.dirname(sys.modules["cpnest"].__file__)
    kw = dict(case["kw"], output=folder, resume=True, seed=case["seed"] % 1000)
    holder = {}

    def send():
        board.fired.value = 1
        cp = holder["cp"]
        board.init.value = int(bool(cp.NS.initialised))
        board.recorded.value = len(cp.NS.nested_samples)
        if case["external"]:
            board.fired.value = 2          # the check sends it
            end = time.time() + 20
            while board.fired.value == 2 and time.time() < end:
                time.sleep(0.001)
            return
        os.killpg(os.getpgid(0), sig) if case["group"] else os.kill(os.getpid(), sig)
        if case["twice"]:
            os.kill(os.getpid(), sig)

    def trigger():
        if case["lines"]:
            left = [case["lines"]]

            def loc(f, e, a):
                if e == "line":
                    left[0] -= 1
                    if left[0] == 0:
                        sys.settrace(None)
                        send()
                return loc

            def glob(f, e, a):
                return loc if f.f_code.co_filename.startswith(package) and left[0] > 0 else None
            f = sys._getframe()
            sys.settrace(glob)
            while f:
                if f.f_code.co_filename.startswith(package):
                    f.f_trace = loc
                f = f.f_back
        else:
            send()

    def on_recv(k):
        if case["at"] and k == case["at"]:
            trigger()

    def on_poll(k):
        if case["stage"] == "init" and k == 1:
            send()
        if case["stage"] == "late-init" and k == 1:
            t = threading.Timer(case["delay"], send)
            t.daemon = True
            t.start()

    def body():
        import cpnest
        board.main.value = os.getpid()
        procs.count_messages(board, on_recv, on_poll)
        cp = holder["cp"] = cpnest.CPNest(model_of(board, .001 if case["delay"] else 0), **kw)
        if case["stage"] == "start":
            # as soon as the first process is started
            import multiprocessing.process as mpp
            start = mpp.BaseProcess.start

            def start_(self):
                start(self)
                if not board.fired.value:
                    send()
            mpp.BaseProcess.start = start_
        cp.run()

    def each():
        if board.fired.value == 2:
            if case["group"]:
                os.killpg(pid, sig)
            else:
                os.kill(pid, sig)
            board.fired.value = 3
    err = os.path.join(top, "err")
    pid = procs.launch(body, err)
    w = procs.watch(pid, each=each)
    text = open(err, errors="replace").read()[-2500:] if os.path.exists(err) else ""
    n["runs_%s" % case["stage"]] += 1
    if not board.fired.value:
        n["not_hit"] += 1
        if w.code != 0:
            bad.append(("failed", "%s: the run failed before the signal: %s %s" % (desc, w.code, text)))
    elif case["delay"] and w.code in (-int(sig), 0) and os.path.exists(os.path.join(folder, "chain_%d_%d.txt_evidence.txt" % (kw["nlive"], kw["seed"]))):
        n["too_late"] += 1        # sent by a clock, when sampling was over
    else:
        n["signals"] += 1
        if w.code is None:
            bad.append(("hang", "%s: still there after %.0f s%s, processes %s; %s" % (desc, w.seconds, ", doing nothing" if w.idle else "", w.left, text)))
        else:
            if w.code != 130:
                bad.append(("exit-status", "%s: exit status %s instead of 130; %s" % (desc, w.code, text)))
            if w.left:
                bad.append(("process-left", "%s: processes left behind: %s; %s" % (desc, w.left, text)))
        if w.code is not None and board.init.value and case["stage"] in ("loop",):
            N, nt = kw["nlive"], kw["nthreads"]
            f = os.path.join(folder, "nested_sampler_resume.pkl")
            try:
                d = H.ns_digest(load(f))
            except Exception as e:
                bad.append(("no-checkpoint", "%s: no loadable checkpoint of the integrator: %r; %s" % (desc, e, text)))
            else:
                n["integrator_checkpoints"] += 1
                if board.recorded.value >= 0 and len(d["recorded"]) < board.recorded.value - nt:
                    bad.append(("old-checkpoint", "%s: %d samples in the checkpoint, %d had been recorded when the signal came" % (desc, len(d["recorded"]), board.recorded.value)))
                check_state(bad, d, N, nt, desc)
            kinds = collections.Counter()
            for i in range(nt):
                f = os.path.join(folder, "sampler_%d.pkl" % i)
                try:
                    s = load(f)
                    kinds[type(s).__name__] += 1
                    n["sampler_checkpoints"] += 1
                except Exception as e:
                    bad.append(("no-checkpoint", "%s: no loadable checkpoint of sampler %d: %r; %s" % (desc, i, e, text)))
            nh, ns = kw.get("nhamiltonian", 0), kw.get("nslice", 0)
            want = dict(MetropolisHastingsSampler=nt - nh - ns, HamiltonianMonteCarloSampler=nh, SliceSampler=ns)
            if sum(kinds.values()) == nt and kinds != collections.Counter({k: v for k, v in want.items() if v}):
                bad.append(("sampler-kinds", "%s: checkpoints of %s, samplers were %s" % (desc, dict(kinds), want)))
            if case["again"] and not bad:
                def second():
                    import cpnest
                    cp = cpnest.CPNest(M.gauss(d=2), **kw)
                    cp.run()
                    if not np.isfinite(cp.NS.logZ):
                        sys.exit(5)
                p2 = procs.launch(second, err + "2")
                w2 = procs.watch(p2)
                if w2.code != 0 or w2.left:
                    bad.append(("resume-fails", "%s: the resumed run ends with %s, %s left; %s" % (desc, w2.code, w2.left, open(err + "2", errors="replace").read()[-3000:])))
                procs.destroy(p2)
                n["completed_after_resume"] += 1
    procs.destroy(pid)
    shutil.rmtree(top, ignore_errors=True)
    return dict(bad=bad, n=dict(n))


def alone_case(case):
    """one sampler of the run is signalled, nothing else is: the run must not go on without it, nor wait for it"""
    top = tempfile.mkdtemp(prefix="c11-", dir=case["scratch"])
    bad, n = [], collections.Counter()
    desc = "%s to sampler %d alone, stage %s (reply %d), %s" % (case["sig"], case["who"], case["stage"], case["at"], case["kw"])
    board = procs.Board()
    sig = getattr(signal, case["sig"])
    kw = dict(case["kw"], output=os.path.join(top, "out"), resume=True, seed=case["seed"] % 1000)
    m = M.gauss(d=2)

    class Real(type(m)):
        def log_likelihood(self, p):
            if os.getpid() != board.main.value:
                i = board.me()
                board.calls[i] += 1
                if i == case["who"] and not board.fired.value and (board.nrecv.value >= case["at"] if case["at"] else board.calls[i] > 15):
                    board.fired.value = 1
                    os.kill(os.getpid(), sig)
            return M.Separable.log_likelihood(self, p)
    m.__class__ = Real

    def body():
        import cpnest
        board.main.value = os.getpid()
        procs.count_messages(board)
        cpnest.CPNest(m, **kw).run()
        board.recorded.value = 1
    err = os.path.join(top, "err")
    pid = procs.launch(body, err)
    w = procs.watch(pid)
    text = open(err, errors="replace").read()[-2500:] if os.path.exists(err) else ""
    if not board.fired.value:
        n["not_hit"] += 1
    else:
        n["signals_to_a_sampler"] += 1
        if w.code is None:
            bad.append(("hang", "%s: still there after %.0f s%s, processes %s; %s" % (desc, w.seconds, ", doing nothing" if w.idle else "", w.left, text)))
        elif w.left:
            bad.append(("process-left", "%s: processes left behind: %s; %s" % (desc, w.left, text)))
        elif w.code == 0 and board.nrecv.value < 60:
            bad.append(("exit-status", "%s: the run ends with status 0 after %d replies; %s" % (desc, board.nrecv.value, text)))
        else:
            n["ended_with_%s" % w.code] += 1
    procs.destroy(pid)
    shutil.rmtree(top, ignore_errors=True)
    return dict(bad=bad, n=dict(n))


def handlers_case(case):
    """own handlers must be called before and after a run, and during one without resume"""
    top = tempfile.mkdtemp(prefix="c11-", dir=case["scratch"])
    bad, n = [], collections.Counter()
    board = procs.Board()
    sig = getattr(signal, case["sig"])
    kw = dict(case["kw"], output=os.path.join(top, "out"), resume=case["resume"], seed=case["seed"] % 1000)
    desc = "%s, resume=%s, %s" % (case["sig"], case["resume"], case["kw"])

    def body():
        import cpnest
        board.main.value = os.getpid()

        def mine(s, f):
            board.handled.value += 1

        def others():
            return [signal.getsignal(getattr(signal, s)) for s in SIGS]
        signal.signal(sig, mine)

        def hit(where):
            before = board.handled.value
            os.kill(os.getpid(), sig)
            for _ in range(1000):
                pass
            if board.handled.value != before + 1:
                print("HANDLER %s: the user's handler of %s was not called" % (where, case["sig"]))
                sys.stdout.flush()

        def on_recv(k):
            if not case["resume"] and k in (3, 20):
                hit("during a run without resume")
        procs.count_messages(board, on_recv)
        first = others()
        for rep in range(2):
            cp = cpnest.CPNest(M.gauss(d=2), **dict(kw, output=kw["output"] + str(rep)))
            if others() != first:
                print("HANDLER after construction: handlers changed")
            hit("before the run")
            cp.run()
            if others() != first:
                print("HANDLER after the run: handlers changed")
            hit("after the run")
        sys.stdout.flush()
    err = os.path.join(top, "err")
    pid = procs.launch(body, err)
    w = procs.watch(pid)
    text = open(err, errors="replace").read()
    for l in text.split("\n"):
        if l.startswith("HANDLER"):
            bad.append(("handlers", "%s: %s" % (desc, l[8:])))
    if w.code is None:
        bad.append(("hang", "%s: still there after %.0f s" % (desc, w.seconds)))
    elif w.code != 0:
        bad.append(("signal-effect", "%s: exit status %s; %s" % (desc, w.code, text[-600:])))
    elif w.left:
        bad.append(("process-left", "%s: processes left behind: %s" % (desc, w.left)))
    n["handler_calls"] += board.handled.value
    procs.destroy(pid)
    shutil.rmtree(top, ignore_errors=True)
    return dict(bad=bad, n=dict(n))


# ---------------------------------------------------------------- a process dies while it uses a shared value
def access_case(case):
    """A process handles the signal at one bytecode of an access to a shared value, and ends: can the others still use them all?"""
    import ctypes
    import cpnest.cpnest as C
    from vlib import drive
    top = tempfile.mkdtemp(prefix="c11-", dir=case["scratch"])
    bad, n = [], collections.Counter()
    r = random.Random(case["seed"])
    model = M.gauss(d=2)
    man = C.RunManager(nthreads=2)
    man.start()
    s = None
    if case["who"] in ("mhs", "sli"):
        s, fake = drive.sampler(case["who"], model, 10, 20, case["seed"], folder=top)
        s.reset()
        s.manager, s.logLmin, s.logLmax = man, man.logLmin, man.logLmax

    def act():
        if s is not None:
            next(s.yield_sample(-np.inf))
        else:
            man.logLmin.value = 1.0
            man.logLmax.value
            man.checkpoint_flag.value
            man.checkpoint_flag.value = 0

    class Out(Exception):
        pass

    def traced(at):
        """the bytecodes of act() in or near the shared values; at: the one to be interrupted"""
        left, near, count = [at], set(), [0]

        def inside(f):
            while f is not None:
                if "multiprocessing" in f.f_code.co_filename or "SharedValue" in getattr(f.f_code, "co_qualname", "") or f.f_code.co_filename == "<string>":
                    return True
                f = f.f_back
            return False

        def loc(f, e, a):
            f.f_trace_opcodes = True
            if e == "opcode":
                count[0] += 1
                if at is None:
                    if inside(f):
                        near.update(range(count[0] - 15, count[0] + 16))
                elif count[0] == at:
                    sys.settrace(None)
                    signal.raise_signal(getattr(signal, case["sig"]))
            return loc

        def glob(f, e, a):
            name = f.f_code.co_filename
            if not ("cpnest" in name or "multiprocessing" in name or name == "<string>"):
                return None
            f.f_trace_opcodes = True
            return loc
        random.seed(case["seed"])
        np.random.seed(case["seed"] % 2 ** 32)
        sys._getframe().f_trace_opcodes = True
        sys.settrace(glob)
        try:
            act()
        finally:
            sys.settrace(None)
        return sorted(x for x in near if x > 0), count[0]

    def sub(fn, limit):
        """fn() in a child; its exit status, None if it does not end"""
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                code = fn()
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        end = time.time() + limit
        pause = 0.0005
        while time.time() < end:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return os.waitstatus_to_exitcode(st)
            time.sleep(pause)
            pause = min(0.02, pause * 1.5)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return None

    def listing():
        near, total = traced(None)
        with open(os.path.join(top, "near"), "wb") as f:
            pickle.dump((near, total), f)
        return 0
    if sub(listing, 120) != 0:
        man.shutdown()
        shutil.rmtree(top, ignore_errors=True)
        return dict(bad=[], n=dict(n, access_not_listed=1))
    near, total = load(os.path.join(top, "near"))
    chosen = near if len(near) <= case["points"] else sorted(r.sample(near, case["points"]))

    def victim(at):
        for q in C.SIGNALS:
            signal.signal(q, C.sighandler)
        try:
            traced(at)
        except C.CheckPoint:
            return 130
        except SystemExit:
            return 130
        return 0

    def other():
        man.logLmin.value, man.logLmax.value, man.checkpoint_flag.value
        man.logLmin.value = 0.5
        with man.logLmax.get_lock():
            man.logLmax.value = max(man.logLmax.value, 0.25)
        return 0
    if sub(other, 60) != 0:
        bad.append(("shared-values", "shared values cannot be accessed at all"))
        chosen = []
    for at in chosen:
        st = sub(lambda: victim(at), 60)
        if st == 130:
            n["accesses_interrupted"] += 1
        elif st is None:
            bad.append(("access-hang", "%s interrupted by %s at bytecode %d of %d: does not end" % (case["who"], case["sig"], at, total)))
            break
        if sub(other, 15) != 0:
            bad.append(("lock-left-behind", "%s interrupted by %s at bytecode %d of %d of what it does with the shared values: another process cannot access them afterwards" % (
                case["who"], case["sig"], at, total)))
            break
    man.shutdown()
    shutil.rmtree(top, ignore_errors=True)
    return dict(bad=bad, n=dict(n))


def run_case(case):
    return dict(signal=signal_case, alone=alone_case, handlers=handlers_case, access=access_case)[case["kind"]](case)


def run(chk):
    for o in forked(cases(chk), run_case, timeout=400, nproc=6):
        c = {k: v for k, v in o.case.items() if k != "scratch"}
        if o.status != "ok":
            chk.inconclusive("%s: %s %s" % (c, o.status, o.value))
            continue
        for mech, msg in o.value["bad"]:
            chk.violation(mech, msg, case=c)
        for k, v in o.value["n"].items():
            chk.count(k, v)
        chk.case(str(c), sample=str(c))
    chk.require("signals", 20)
    chk.require("integrator_checkpoints", 4)
    chk.require("sampler_checkpoints", 10)
    chk.require("signals_to_a_sampler", 3)
    chk.require("handler_calls", 8)
    chk.require("accesses_interrupted", 100)
