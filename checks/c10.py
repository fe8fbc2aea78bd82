"""C10: checkpoints of real runs are cut short at every line, file event and byte count by a kill or a failing disk, and what is left is resumed from."""
import collections, os, pickle, random, resource, select, shutil, signal, sys, tempfile, time
import numpy as np
from vlib import runs, sim as S, history as H, models as M
from vlib.check import forked, kill_group, group_members

RULE = ("one case = one checkpoint (of the integrator or of a sampler of one kind, with or without an earlier checkpoint) hit by one fault; distinct = distinct (object, earlier checkpoint, "
        "fault); non-trivial = the fault happened before the checkpoint was complete")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring with fault injection: process killed at each line / audited file event / byte written, disk errors by RLIMIT_FSIZE; oracle: what is on disk loads as the previous or the new state"
NOTE = ("All lines of package code and all audited file events of the explored checkpoints are enumerated; byte counts are sampled, including both ends. Deaths of the machine (lost "
        "caches) cannot be observed here: only deaths of the process and failures of the disk are.")
ASSUMPTIONS = ["a killed process loses what it has not written to the kernel, and nothing else"]


def cases(chk):
    r = random.Random(chk.seed * 920419823 + 10)
    out = []
    for i in range(10 if chk.thorough else 4):
        kw = [dict(nthreads=2, nslice=1), dict(nthreads=2, nhamiltonian=1), dict(nthreads=3, nslice=1, nhamiltonian=1), dict(nthreads=1)][i % 4]
        out.append(dict(kind="sim", model=("gauss", dict(d=1 + i % 3)), kw=dict(kw, nlive=16, maxmcmc=10, poolsize=30, verbose=3 * (i % 2)), ops=5 + r.randrange(25), seed=r.randrange(1, 10 ** 6),
                        bytes=40 if chk.thorough else 8))
    for i in range(24 if chk.thorough else 6):
        out.append(dict(kind="real", kw=dict(nthreads=2 + i % 2, nslice=i % 2, nhamiltonian=int(i % 4 == 3), nlive=20, maxmcmc=10, poolsize=30), seed=r.randrange(1, 10 ** 6),
                        kills=[r.uniform(0.05, 0.9) for _ in range(8 if chk.thorough else 4)]))
    return [dict(c, scratch=chk.scratch) for c in out]


def digest(path):
    with open(path, "rb") as f:
        o = pickle.load(f)
    return H.ns_digest(o) if hasattr(o, "nested_samples") else H.sampler_digest(o)


def same(a, b):
    return not H.differences(a, b)


class Fault:
    """runs in the child process that is about to write a checkpoint"""
    def __init__(self, kind, n, package):
        self.kind, self.n, self.package = kind, n, package

    def arm(self):
        n = [self.n]
        kind = self.kind
        if kind in ("fsize-kill", "fsize-error"):
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == "fsize-kill" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, resource.RLIM_INFINITY))
        elif kind in ("line-kill", "line-signal"):
            def loc(f, e, a):
                if e == "line":
                    if n[0] == 0:
                        if kind == "line-kill":
                            os._exit(77)
                        n[0] -= 1
                        sys.settrace(None)
                        from cpnest.cpnest import CheckPoint
                        raise CheckPoint()
                    n[0] -= 1
                return loc

            def glob(f, e, a):
                return loc if f.f_code.co_filename.startswith(self.package) else None
            sys.settrace(glob)
        else:
            def hook(ev, args):
                if ev in ("open", "os.rename", "os.remove", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"):
                    if ev == "open" and not (isinstance(args[0], str) and ".pkl" in args[0]):
                        return
                    if n[0] == 0:
                        n[0] -= 1
                        if kind == "event-kill":
                            os._exit(77)
                        raise OSError(5, "Input/output error")
                    n[0] -= 1
            sys.addaudithook(hook)
        self.left = n

    def disarm(self):
        sys.settrace(None)
        if self.kind == "fsize-error":
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def attempt(obj, fault):
    """0: completed, 1: raised and then completed when tried again, 2: raised, then raised again, 77: killed at a line or event; else killed otherwise"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            fault.arm()
            try:
                obj.checkpoint()
                code = 0
            except BaseException:
                fault.disarm()
                code = 3
                if os.path.exists(obj.resume_file):
                    shutil.copy(obj.resume_file, obj.resume_file + ".seen")
                try:
                    obj.checkpoint()
                    code = 1
                except BaseException:
                    code = 2
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def resumable(case, folder):
    """a run with resume can be constructed in the folder (in a child)"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            sim = S.Sim(1, S.Policy())
            sim.__enter__()
            from cpnest import CPNest
            kw = dict(case["kw"], output=folder, resume=True, seed=5)
            CPNest(runs.make(case["model"]), **kw)
            code = 0
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 0


class Done(BaseException):
    pass


def sim_case(case):
    """a run interrupted once (that gives the earlier checkpoint), resumed, and stopped somewhere: its objects are the ones checkpointed"""
    import cpnest
    package = os.path.dirname(cpnest.__file__)
    folder = tempfile.mkdtemp(prefix="c10-", dir=case["scratch"]) + "/out"
    os.makedirs(folder)
    bad, n, done = [], collections.Counter(), []
    r = random.Random(case["seed"])

    def probe(cp, samplers):
        for idx, obj in enumerate([cp.NS] + samplers):
            path = obj.resume_file
            name = type(obj).__name__
            old_bytes = open(path, "rb").read() if os.path.exists(path) else None
            A = digest(path) if old_bytes is not None else None
            B = H.ns_digest(obj) if idx == 0 else H.sampler_digest(obj)
            listing = set(os.listdir(folder))

            def reset(prev):
                for f in os.listdir(folder):
                    if f not in listing:
                        os.remove(os.path.join(folder, f))
                if prev:
                    with open(path, "wb") as f:
                        f.write(old_bytes)
                elif os.path.exists(path):
                    os.remove(path)
            reset(True)
            # how long is it, in lines, events and bytes
            if attempt(obj, Fault("line-kill", 10 ** 9, package)) != 0:
                bad.append(("cannot", "%s cannot be checkpointed" % name))
                continue
            size = os.path.getsize(path)
            if not same(digest(path), B):
                bad.append(("not-new", "the completed checkpoint of %s is not its state: %s" % (name, H.differences(digest(path), B)[:2])))
            plans = []
            for prev in (True, False):
                bs = sorted(set([0, 1, 17, size // 2, size - 1, size, size + 1] + [r.randrange(size) for _ in range(case["bytes"])]))
                plans += [(prev, k, b) for k in ("fsize-kill", "fsize-error") for b in bs]
                plans += [(prev, k, i) for k in ("line-kill", "line-signal", "event-kill", "event-error") for i in range(60)]
            over = set()
            for prev, kind, at in plans:
                if (prev, kind) in over:
                    continue
                reset(prev)
                rc = attempt(obj, Fault(kind, at, package))
                what = "%s %s an earlier checkpoint, %s at %d of %s: " % (name, "with" if prev else "without", kind, at, "%d bytes" % size if "fsize" in kind else "the lines/events")
                hit = rc != 0
                n["faults_hit"] += hit
                done.append(((name, prev, kind, at, case["seed"]), hit))
                if not hit and "fsize" not in kind:
                    over.add((prev, kind))
                if rc == 2:
                    bad.append(("no-recovery", what + "the next checkpoint fails, too"))
                states = [("", rc)]
                if os.path.exists(path + ".seen"):
                    states.append((".seen", 3))
                elif rc in (1, 2) and prev:
                    bad.append(("lost", what + "no checkpoint was left behind by the failed one"))
                for suffix, code in states:
                    f = path + suffix
                    if not os.path.exists(f):
                        if prev or code in (0, 1):
                            bad.append(("lost", what + "no checkpoint is left (exit %d)" % code))
                        continue
                    try:
                        d = digest(f)
                    except Exception as e:
                        bad.append(("truncated", what + "the checkpoint cannot be read: %r" % e))
                        continue
                    n["checkpoints_read"] += 1
                    if same(d, B):
                        n["new_state_found"] += 1
                    elif prev and same(d, A):
                        n["previous_state_found"] += 1
                        if code in (0, 1):
                            bad.append(("stale", what + "the checkpoint was reported complete but the file has the previous state"))
                    else:
                        bad.append(("mixed", what + "the checkpoint is neither the previous nor the new state: %s" % H.differences(d, B)[:2]))
                if os.path.exists(path + ".seen"):
                    os.remove(path + ".seen")
                if hit and r.random() < .12:
                    n["resumed_constructions"] += 1
                    if not resumable(case, folder):
                        bad.append(("resume-fails", what + "a run with resume does not start"))
                if len(bad) > 12:
                    raise Done()
            reset(True)
            n["objects_" + name] += 1

    stage = [0]
    left = [case["ops"]]

    def count(sim, *a):
        if sim.current.aid == 0 and stage[0] == 1 and "st" in box:
            left[0] -= 1
            if left[0] == 0:
                probe(box["st"].cp, box["st"].samplers)
                raise Done()
    box = {}

    def on_stage(st):
        stage[0] = st.index
        box["st"] = st
    case = dict(case, interrupts=[dict(kind="signal", sig="SIGTERM", ops=105, lines=0)])
    trouble = None
    try:
        for st in H.play(case, folder, on_stage=on_stage, extra_hooks=dict(after_send=[count][0])):
            if st.res.status not in ("exit",):
                trouble = "%s: %s" % (st.res.status, st.res.error)
    except Done:
        trouble = None
    except BaseException:
        import traceback
        trouble = traceback.format_exc()
    if not done and not trouble:
        trouble = "budget: the run ended before its checkpoint was probed"
    shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
    return dict(trouble=trouble, bad=bad, n=dict(n), done=done)


def real_case(case):
    """real processes that checkpoint all the time, killed at some moment, resumed, killed again ..."""
    folder = tempfile.mkdtemp(prefix="c10-", dir=case["scratch"]) + "/out"
    bad, n, done = [], collections.Counter(), []
    for k, delay in enumerate(case["kills"] + [None]):
        sys.stdout.flush()
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setsid()
                os.close(rfd)
                from cpnest import CPNest
                cp = CPNest(M.gauss(d=2), output=folder, resume=True, seed=case["seed"] % 1000, verbose=0, periodic_checkpoint_interval=1e-9 if delay is not None else None, **case["kw"])
                os.write(wfd, b"x")
                cp.run()
                code = 0
            except BaseException:
                import traceback
                os.write(wfd, traceback.format_exc()[-1500:].encode())
            finally:
                os._exit(code)
        os.close(wfd)
        first = os.read(rfd, 2000)
        if first != b"x":
            bad.append(("resume-fails", "after %d kills a run with resume does not start: %s" % (k, first.decode(errors="replace"))))
            kill_group(pid); os.waitpid(pid, 0); os.close(rfd)
            break
        n["resumed_constructions"] += 1
        if delay is not None:
            time.sleep(delay)
            kill_group(pid)
            _, stt = os.waitpid(pid, 0)
            n["real_kills"] += 1
            for f in sorted(os.listdir(folder)):
                if f.endswith(".pkl"):
                    try:
                        digest(os.path.join(folder, f))
                        n["checkpoints_read"] += 1
                    except Exception as e:
                        bad.append(("truncated", "after kill %d (%.2f s after the start) %s cannot be read: %r" % (k + 1, delay, f, e)))
            done.append((("real", case["seed"], k), any(f.endswith(".pkl") for f in os.listdir(folder))))
            if os.WIFEXITED(stt) and os.WEXITSTATUS(stt) == 0:
                break
        else:
            err, stt, end = b"", None, time.time() + 300
            while stt is None and time.time() < end:
                p, st_ = os.waitpid(pid, os.WNOHANG)
                if p:
                    stt = st_
                if select.select([rfd], [], [], 0.02)[0]:
                    err += os.read(rfd, 2000)
            kill_group(pid)
            if stt is None:
                os.waitpid(pid, 0)
                shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
                return dict(trouble="timeout: the resumed run has not ended after 300 s", bad=bad, n=dict(n), done=done)
            while select.select([rfd], [], [], 0)[0]:
                x = os.read(rfd, 2000)
                if not x:
                    break
                err += x
            if stt:
                bad.append(("resumed-run-fails", "after %d kills the resumed run fails: %s" % (k, err.decode(errors="replace"))))
            else:
                n["real_completions"] += 1
        os.close(rfd)
    shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
    return dict(trouble=None, bad=bad, n=dict(n), done=done)


def one(case):
    return sim_case(case) if case["kind"] == "sim" else real_case(case)


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=800), least=.7):
        for k, hit in v["done"]:
            chk.case(k, hit, sample=str(k) if hit else None)
    chk.require("faults_hit", 200)
    chk.require("previous_state_found", 100)
    chk.require("new_state_found", 20)
    chk.require("resumed_constructions", 20)
    chk.require("real_kills", 5)
    for k in ("NestedSampler", "MetropolisHastingsSampler", "SliceSampler", "HamiltonianMonteCarloSampler"):
        chk.require("objects_" + k, 1)
