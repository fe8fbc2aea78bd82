"""Runs of CPNest with real processes, in a process group of their own, watched through /proc."""
import atexit, faulthandler, json, os, signal, sys, time, traceback, threading
import multiprocessing
import multiprocessing.connection
from multiprocessing.sharedctypes import RawArray, RawValue
import ctypes


def members(pgid):
    """[(pid, state, cpu ticks)] of the live processes of a group"""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    s = f.read()
            except OSError:
                continue
            r = s[s.rindex(")") + 2:].split()
            if int(r[2]) == pgid and r[0] not in "ZX":
                out.append((int(d), r[0], int(r[11]) + int(r[12])))
    return out


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
    except OSError:
        return False
    return s[s.rindex(")") + 2] not in "ZX"


def launch(fn, errfile=None):
    """fn() in a forked child that leads its own process group and ends as an interpreter does"""
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid:
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        return pid
    code = 1
    try:
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        if errfile:
            fd = os.open(errfile, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(fd, 1); os.dup2(fd, 2)
        faulthandler.register(signal.SIGXCPU, chain=False)     # where are they? (inherited by the processes started)
        try:
            fn()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            traceback.print_exc()
            code = 1
        sys.stdout.flush(); sys.stderr.flush()
        atexit._run_exitfuncs()
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(code)


class Watched:
    """code: exit status (negative: signal), None if it never ended; left: processes of the group still there afterwards"""
    def __init__(self):
        self.code, self.left, self.seconds, self.idle = None, [], None, False


def whereabouts(left):
    """have processes print their stacks into their error file"""
    for m in left:
        try:
            os.kill(m[0], signal.SIGXCPU)
        except OSError:
            pass
    time.sleep(0.5)


def watch(pid, patience=45, limit=150, grace=15, each=None):
    """Waits for the run to end. After `patience` seconds a run none of whose processes uses any processor time is hanging; after
    `limit` seconds any run is."""
    w = Watched()
    t0 = time.time()
    nxt = t0 + patience
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            w.code = os.waitstatus_to_exitcode(st)
            break
        if each:
            each()
        now = time.time()
        if now > nxt:
            a = dict((m[0], m[2]) for m in members(pid))
            time.sleep(6)
            b = members(pid)
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                w.code = os.waitstatus_to_exitcode(st)
                break
            used = sum(m[2] - a.get(m[0], 0) for m in b)
            # waiting with time-outs and polling for the end costs next to nothing
            if used < 60 * len(b) / 10:
                w.idle = True
            if w.idle or now > t0 + limit:
                w.left = members(pid)
                whereabouts(w.left)
                w.seconds = time.time() - t0
                return w
            nxt = time.time() + 10
        time.sleep(0.01)
    w.seconds = time.time() - t0
    end = time.time() + grace
    while True:
        w.left = members(pid)
        if not w.left:
            return w
        if time.time() > end:
            whereabouts(w.left)
            return w
        time.sleep(0.05)


def destroy(pid):
    for _ in range(20):
        left = members(pid)
        if not left:
            break
        for m in left:
            try:
                os.kill(m[0], signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.02)
    try:
        os.waitpid(pid, os.WNOHANG)
    except OSError:
        pass


class Board:
    """shared between the processes of one run and the check: who is who, and how far the run is"""
    def __init__(self, slots=16):
        self.pids = RawArray(ctypes.c_long, slots)
        self.calls = RawArray(ctypes.c_long, slots)
        self.nrecv = RawValue(ctypes.c_long, 0)
        self.npoll = RawValue(ctypes.c_long, 0)
        self.main = RawValue(ctypes.c_long, 0)
        self.init = RawValue(ctypes.c_long, 0)       # live set complete when the fault was injected
        self.recorded = RawValue(ctypes.c_long, -1)
        self.fired = RawValue(ctypes.c_long, 0)
        self.handled = RawValue(ctypes.c_long, 0)
        self.lock = multiprocessing.Lock()

    def me(self):
        pid = os.getpid()
        for i, p in enumerate(self.pids):
            if p == pid:
                return i
        with self.lock:
            for i, p in enumerate(self.pids):
                if p == 0:
                    self.pids[i] = pid
                    return i

    def samplers(self):
        return [p for p in self.pids if p]


def count_messages(board, on_recv=None, on_poll=None):
    """count what the main process receives from its samplers"""
    C = multiprocessing.connection._ConnectionBase
    recv, poll = C.recv, C.poll

    def recv_(self):
        o = recv(self)
        if os.getpid() == board.main.value and isinstance(o, tuple) and len(o) == 4:
            board.nrecv.value += 1
            if on_recv:
                on_recv(board.nrecv.value)
        return o

    def poll_(self, timeout=0.0):
        if os.getpid() == board.main.value:
            board.npoll.value += 1
            if on_poll:
                on_poll(board.npoll.value)
        return poll(self, timeout)
    C.recv, C.poll = recv_, poll_
