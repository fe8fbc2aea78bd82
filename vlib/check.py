"""Verdict discipline shared by all checks: three-valued verdicts, evidence, replays, known findings, forked cases."""
import collections, json, os, pickle, re, select, shutil, signal, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, "known_findings.txt")


def known_findings(pid):
    """{mechanism: text} of the listed (unrepaired) findings of a property"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\w+) mechanism=(\S+) (.*)", line)
            if m and m[1] == pid:
                out[m[2]] = m[3].strip()
    return out


CURRENT = None


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid, self.rule, self.level = pid, rule, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        globals()["CURRENT"] = self
        self.evaluations = 0
        self.distinct = set()
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.known = known_findings(pid)
        self.incon = []
        self.assumptions = list(assumptions)
        self.extra = {}
        self.scratch = tempfile.mkdtemp(prefix="cpnv-%s-" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))

    def overdue(self):
        """a quick check has an answer before it is given up: with violations in hand it need not see everything"""
        t = time.time() - self.t0
        return not self.thorough and t > (360 if self.violations else 800)

    # ---- observations
    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(key if isinstance(key, (str, int, tuple)) else repr(key))
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counts[name] += n

    def violation(self, mechanism, message, **replay):
        if mechanism in self.known:
            self.known_hit.setdefault(mechanism, message)
            return
        self.violations.append(dict(mechanism=mechanism, message=str(message), replay=replay))

    def inconclusive(self, message):
        self.incon.append(str(message))

    def require(self, name, least):
        """the deciding monitor has to have been reached at least this often"""
        if self.counts[name] < least:
            self.inconclusive("only %d %s observed, at least %d needed" % (self.counts[name], name, least))

    # ---- end
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        wall = time.time() - self.t0
        for k, v in sorted(self.counts.items()):
            print("observed %-42s %d" % (k, v))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ["(none)"], observed=dict(self.counts), **self.extra)
        if self.incon:
            cov["inconclusive"] = self.incon[:20]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_plain)
        for mech, msg in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, mech, self.known[mech]))
        print("%s tier=%s seed=%d: %d cases, %d distinct, %d violations, %.1f s" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations), wall))
        if self.violations:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, violations=self.violations[:50]), f,
                          indent=1, default=_plain)
            seen = set()
            for v in self.violations:
                if v["mechanism"] not in seen and len(seen) < 12:
                    seen.add(v["mechanism"])
                    print("  %s: %s" % (v["mechanism"], v["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            return 1
        if self.incon:
            for m in self.incon[:20]:
                print("INCONCLUSIVE: " + m)
            return 2
        return 0


def _plain(o):
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, np.ndarray):
            return o.tolist()
    except ImportError:
        pass
    return repr(o)


# ---------------------------------------------------------------- forked cases
class Outcome:
    """status: ok (value), error (value = traceback), timeout, died (value = wait status)"""
    __slots__ = ("case", "status", "value")

    def __init__(self, case, status, value):
        self.case, self.status, self.value = case, status, value


def group_members(pgid):
    """pids of live (non-zombie) processes of a session or process group we created"""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    s = f.read()
            except OSError:
                continue
            r = s[s.rindex(")") + 2:].split()
            if r[0] not in "ZX" and (int(r[2]) == pgid or int(r[3]) == pgid):
                out.append(int(d))
    return out


def kill_group(pgid):
    for _ in range(3):
        try:
            os.killpg(pgid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        left = group_members(pgid)
        for p in left:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        if not left:
            return


def forked(cases, fn, nproc=None, timeout=300, quiet=True):
    """fn(case) in a forked child with its own session per case; yields Outcomes as they finish."""
    cases = list(enumerate(cases))
    nproc = nproc or int(os.environ.get("VERIF_NPROC", os.cpu_count() or 4))
    live = {}
    todo = collections.deque(cases)
    sys.stdout.flush(); sys.stderr.flush()
    try:
        while todo or live:
            while todo and len(live) < nproc:
                i, c = todo.popleft()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        for fd in live:
                            try: os.close(fd)
                            except OSError: pass
                        os.setsid()
                        if quiet:
                            dn = os.open("/dev/null", os.O_RDWR)
                            os.dup2(dn, 0); os.dup2(dn, 1); os.dup2(dn, 2)
                        try:
                            res = ("ok", fn(c))
                        except BaseException:
                            res = ("error", traceback.format_exc())
                        data = pickle.dumps(res)
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                    except BaseException:
                        code = 97
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = [pid, i, c, time.time() + timeout, []]
            ready, _, _ = select.select(list(live), [], [], 0.5)
            for r in ready:
                data = os.read(r, 1 << 20)
                if data:
                    live[r][4].append(data)
                    continue
                pid, i, c, _, buf = live.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                kill_group(pid)
                raw = b"".join(buf)
                if raw:
                    try:
                        s, v = pickle.loads(raw)
                        yield Outcome(c, s, v)
                        continue
                    except Exception as e:
                        yield Outcome(c, "died", "unreadable result %r" % e)
                        continue
                yield Outcome(c, "died", "wait status %d" % st)
            if CURRENT is not None and CURRENT.overdue():
                if todo or live:
                    CURRENT.inconclusive("%d cases left out for lack of time" % (len(todo) + len(live)))
                return
            now = time.time()
            for r in [r for r, v in live.items() if v[3] < now]:
                pid, i, c, _, buf = live.pop(r)
                kill_group(pid)
                os.close(r)
                os.waitpid(pid, 0)
                yield Outcome(c, "timeout", "no result after %d s" % timeout)
    finally:
        for r, v in live.items():
            kill_group(v[0])


def main(run):
    """entry point of a check module: run(check) -> None"""
    raise NotImplementedError
