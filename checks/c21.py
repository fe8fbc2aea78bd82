"""C21: what a run does to the file system, seen by an audit hook in every process and by comparing the surroundings before and after."""
import hashlib, json, multiprocessing, os, random, re, shutil, signal, sys, tempfile
import numpy as np
from vlib import runs, history
from vlib.check import forked

RULE = ("one case = one run (or one interrupted and resumed run) in a scratch world with a hostile folder name and files of others in and around the folder; "
        "non-trivial if the run wrote something")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: audit events of every process of the run plus a content comparison of all files in and around the output folder"
NOTE = ("Every open for writing, deletion, renaming, directory creation and process start of the explored runs is judged, in all processes; folder names, files of others "
        "and configurations come from a list and are combined by seed.")
ASSUMPTIONS = ["writes made by C libraries without going through Python are only seen by the comparison of the scratch world",
               "a resumed run cannot tell its own earlier samplers' chain files from those of others with the same kind of name; none are planted there"]

NAMES = ["plain", "with space", "it's", 'dq"uo', "a;touch canary;b", "$(touch canary)", "`touch canary`", "a&&touch canary&&b", "a|touch canary", "-rf", "--help",
         "st*r", "[ab]", "q?", "{a,b}", "100%s%d", "{0}{name}", "ünïcødé-日本", "new\nline", "tab\tx", "back\\slash", "#hash", "a>b", "run.dat", "prior_samples_1.dat",
         " lead", "trail ", "deep/er/than/that", "x" * 200, ".hidden", "trailing.", "sampler_0.pkl"]
OTHERS = ["notes.txt", "header.txt.bak", "my_posterior.dat", "prior_samples_12.dat.bak", "prior_samples_.dat", "prior_samples_x.dat", "prior_samples_1_2.dat",
          "xprior_samples_7.dat", "mcmc_chain_7.data", "prior_samples_424242.dat", "mcmc_chain_31337.dat", "prior_samples_3 4.dat", "prior_samples_5;touch canary.dat",
          "old_sampler_0.pkl", "posterior.dat.orig", "a b", "-rf", "*", "prior samples.dat"]
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def cases(chk):
    r = random.Random(chk.seed * 198491317 + 21)
    out = []
    mods = [("gauss", dict(d=1)), ("gauss", dict(d=2)), ("Disc", {}), ("gauss_prior", {})]
    names = NAMES[:]
    r.shuffle(names)
    for i in range((4 if chk.thorough else 1) * len(NAMES)):
        n = r.choice([1, 2, 3])
        out.append(dict(kind="sim", name=names[i % len(names)], model=mods[i % 4], style=["abs", "rel", "slash", "dots", "link", "existing"][(i * 5 + i // 7) % 6],
                        kw=dict(nthreads=n, nlive=r.choice([n + 4, 12]), maxmcmc=5, poolsize=8, nslice=i % 2, verbose=[3, 0, 3, 2, 3, 1][i % 6], prior_sampling=i % 5 == 4, resume=i % 3 == 2),
                        policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    for c in out:
        if c["name"] != c["name"].strip():
            c["style"] = "rel"
            c["kw"].update(verbose=3, prior_sampling=False, resume=False)
    # parameter names are no paths
    labels = [("x/y", "../up", "a.b"), ("../../other/run", "../cwd/precious"), ("sub/mcmc_chain_9", "..")]
    for i in range(9 if chk.thorough else 3):
        out.append(dict(kind="sim", name=names[i % len(names)], model=("odd_names", dict(labels=labels[i % 3])), style=["abs", "rel", "existing"][i % 3],
                        kw=dict(nthreads=1 + i % 2, nlive=12, maxmcmc=5, poolsize=8, nslice=i % 2, verbose=[3, 2, 3][i % 3], prior_sampling=False), policy=r.choice(runs.POLICIES), seed=r.randrange(1, 10 ** 6)))
    for i in range(30 if chk.thorough else 10):
        n = r.choice([1, 2])
        out.append(dict(kind="resume", name=r.choice(names), model=mods[i % 4], move=["rename", "relabs", "absrel", "rename", "reldots"][i % 5],
                        kw=dict(nthreads=n, nlive=12, maxmcmc=5, poolsize=8, nslice=i % 2, verbose=[3, 0, 2][i % 3]), policy=r.choice(runs.POLICIES[:2]),
                        interrupts=[dict(kind=["group", "crash"][(i // 5) % 2 if i % 5 else 0], sig=r.choice(history.SIGS), ops=r.randrange(20, 90), lines=0)],
                        again=i % 2 == 0, seed=r.randrange(1, 10 ** 6)))
    for i in range(8 if chk.thorough else 3):
        out.append(dict(kind="real", name=names[i], model=mods[i % 4], style=["abs", "rel", "link"][i % 3],
                        kw=dict(nthreads=2, nlive=12, maxmcmc=5, poolsize=8, nslice=1, verbose=3, prior_sampling=i % 3 == 1), seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


# ---------------------------------------------------------------- the world around a run
def picture(top, skip=()):
    """{path: what is there} of everything under a directory, except under the given ones"""
    out = {}
    for d, dirs, files in os.walk(top):
        for f in files + [x for x in dirs if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[p] = "link to " + os.readlink(p)
            else:
                try:
                    out[p] = hashlib.sha256(open(p, "rb").read()).hexdigest() if os.path.isfile(p) else "special"
                except OSError as e:
                    out[p] = repr(e)
        dirs[:] = [x for x in dirs if os.path.join(d, x) not in skip and not os.path.islink(os.path.join(d, x))]
        for x in dirs:
            out[os.path.join(d, x)] = "directory"
    return out


def compare(bad, before, after, what):
    for p in sorted(set(before) | set(after)):
        a, b = before.get(p), after.get(p)
        if a != b:
            bad.append(("%s" % ("deleted" if b is None else "created" if a is None else "modified") + "-" + what,
                        "%s: %r %s" % (what, p, "was deleted" if b is None else "was created" if a is None else "was changed")))


class World:
    """scratch/world: cwd/ (the working directory), other/ (files of others), tmp/"""
    def __init__(self, scratch):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="c21-", dir=scratch))
        for d in ("cwd", "cwd/sub", "other", "tmp", "other/run"):
            os.mkdir(self.path(d))
        for f in ("cwd/precious.txt", "cwd/prior_samples_5.dat", "cwd/posterior.dat", "cwd/sub/mcmc_chain_9.dat", "other/prior_samples_1.dat", "other/run/header.txt", "cwd/header.txt"):
            with open(self.path(f), "w") as h:
                h.write("of somebody else: " + f + "\n")
        tempfile.tempdir = os.environ["TMPDIR"] = self.path("tmp")
        os.chdir(self.path("cwd"))
        self.log = os.open(self.path("audit"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.pid, self.on = os.getpid(), False
        self.allowed = []
        import matplotlib.pyplot
        self.caches = [os.path.realpath(x) for x in (matplotlib.get_cachedir(), matplotlib.get_configdir()) if x]
        sys.addaudithook(self.hook)

    def path(self, p):
        return os.path.join(self.top, p)

    def real(self, p, follow=True):
        p = os.fsdecode(p)
        return os.path.realpath(p) if follow else os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))

    def fine(self, p):
        if p in ("/dev/null", "/dev/tty", "/dev/zero") or p.startswith(("/proc/", "/dev/shm/", "/dev/fd/", "/dev/pts/")):
            return "special"
        for a in self.allowed:
            if p == a or p.startswith(a + "/"):
                return "own"
        if p == self.path("audit") or p.startswith(self.path("tmp") + "/pymp-"):
            return "special"
        if any(p.startswith(c) for c in self.caches):
            return "special"
        return None

    def note(self, *what):
        os.write(self.log, (json.dumps(what) + "\n").encode())

    def hook(self, event, args):
        if not self.on or event[:2] not in ("op", "os", "su", "sh", "pt") :
            return
        self.on = False          # looking at paths raises audit events itself
        try:
            verdict = self.judge(event, args)
        except Exception as e:
            verdict = None
            self.note("trouble", event, repr(e))
        finally:
            self.on = True
        if verdict:
            self.note("bad", verdict[0], verdict[1])
            raise PermissionError("C21 monitor: " + verdict[1])

    def judge(self, event, args):
        if event == "open":
            p, mode, flags = args
            if isinstance(p, int) or not ((isinstance(mode, str) and set(mode) & set("wax+")) or (flags or 0) & WRITE):
                return None
            where = [("written", self.real(p))]
        elif event in ("os.remove", "os.rmdir"):
            where = [("deleted", self.real(args[0], False))]
        elif event in ("os.rename", "os.link"):
            where = [("renamed", self.real(args[0], False)), ("renamed", self.real(args[1], False))]
        elif event in ("os.mkdir", "os.chmod", "os.chown", "os.utime", "os.truncate", "os.mkfifo", "os.mknod"):
            if isinstance(args[0], int):
                return None
            where = [("changed", self.real(args[0]))]
        elif event == "os.symlink":
            where = [("created", self.real(args[1], False))]
        elif event in ("os.system", "os.exec", "os.posix_spawn", "subprocess.Popen", "pty.spawn", "os.spawn"):
            self.note("process")
            return ("command", "%s%s" % (event, repr(args)[:400]))
        elif event == "shutil.rmtree":
            where = [("deleted", self.real(args[0], False))]
        else:
            return None
        for verb, p in where:
            f = self.fine(p)
            if f is None and event == "os.mkdir" and any((a + "/").startswith(p + "/") for a in self.allowed):
                f = "own"        # the folder itself and what leads to it
            self.note("event", event, f or "outside", p)
            if f is None:
                return ("outside-" + verb, "%s of %r outside the output folder (process %s)" % (event, p, "main" if os.getpid() == self.pid else "sampler"))
        return None

    def verdict(self, bad, n):
        chains, gone = set(), []
        for line in open(self.path("audit")):
            e = json.loads(line)
            if e[0] == "bad":
                bad.append((e[1], e[2]))
            elif e[0] == "trouble":
                n["audit_trouble"] = n.get("audit_trouble", 0) + 1
            elif e[0] == "event":
                n["events_judged"] = n.get("events_judged", 0) + 1
                if e[2] == "own":
                    n["own_events"] = n.get("own_events", 0) + 1
                    if e[1] == "os.remove":
                        n["own_deletions"] = n.get("own_deletions", 0) + 1
                    if e[1] == "open":
                        n["own_writes"] = n.get("own_writes", 0) + 1


def furnish(w, folder, name):
    """files of others inside the output folder"""
    os.makedirs(folder, exist_ok=True)
    for f in OTHERS:
        with open(os.path.join(folder, f), "w") as h:
            h.write("# a\n1\n2\n" if "samples" in f or "chain" in f else "of somebody else: " + f + "\n")
    os.mkdir(os.path.join(folder, "mcmc_chain_5"))
    with open(os.path.join(folder, "mcmc_chain_5", "prior_samples_1.dat"), "w") as h:
        h.write("of somebody else\n")
    return picture(folder)


def outside(w, folder):
    """everything that is not the run's folder; directories that lead to it do not count"""
    return {p: x for p, x in picture(w.top, skip=(folder,)).items()
            if p != w.path("audit") and not (folder + "/").startswith(p + "/") and not p.startswith(w.path("tmp") + "/pymp-")}


def place(w, name, style):
    """(what the user passes, the folder it means, prepared in advance?)"""
    real = w.path("cwd/" + name)
    if style == "abs":
        return real, real
    if style == "rel":
        return name, real
    if style == "slash":
        return real + "//", real
    if style == "dots":
        return "sub/../" + name + "/", real
    if style == "link":
        target = w.path("tmp/target")
        os.makedirs(target)
        os.makedirs(os.path.dirname(real), exist_ok=True)
        os.symlink(target, real)
        return name, target
    return name, real


def finish(w, bad, n, folder, before_out, before_in, removable=()):
    after_out = outside(w, folder)
    compare(bad, before_out, after_out, "outside")
    if any("canary" == os.path.basename(p) for p in after_out) or os.path.exists(os.path.join(folder, "canary")):
        bad.append(("command", "a command in a file name was executed"))
    after_in = picture(folder)
    for p, x in before_in.items():
        if p in removable:
            continue
        if after_in.get(p) != x:
            bad.append(("foreign-file", "%r of the output folder, not of this run, was %s" % (os.path.basename(p), "deleted" if p not in after_in else "changed")))
    n["files_of_others_compared"] = n.get("files_of_others_compared", 0) + len(before_in) + len(before_out)
    n["files_written"] = n.get("files_written", 0) + len(set(after_in) - set(before_in))
    w.verdict(bad, n)


def sim_case(case):
    w = World(case["scratch"])
    bad, n = [], {}
    given, folder = place(w, case["name"], case["style"])
    before_in = furnish(w, folder, case["name"]) if case["style"] in ("existing", "link", "rel") else {}
    before_out = outside(w, folder)
    w.allowed = [folder]
    w.on = True
    try:
        res, sim, model = runs.simulate(dict(case, kw=dict(case["kw"], output=given)), given)
    finally:
        w.on = False
    finish(w, bad, n, folder, before_out, before_in)
    t = runs.trouble(res)
    return dict(trouble=None if bad else t, bad=bad, n=n, trace=(case["name"], case["style"], case["kw"]["verbose"], n.get("own_events")))


def resume_case(case):
    w = World(case["scratch"])
    bad, n = [], dict(interrupted=0)
    a, b = w.path("cwd/" + case["name"]), w.path("cwd/sub/" + case["name"])
    os.makedirs(os.path.dirname(b), exist_ok=True)
    first, second, fa, fb, cd = dict(rename=(a, b, a, b, None), relabs=(case["name"], a, a, a, "other"), absrel=(b, "sub/" + case["name"], b, b, None),
                                     reldots=(case["name"], "../" + case["name"], a, a, "cwd/sub"))[case["move"]]
    before_out = outside(w, fa)
    w.allowed = [fa]
    w.on = True
    done, st = False, None
    gen = history.play(case, first)
    for st in gen:
        done = st.res.status == "ok"
        break
    gen.close()
    w.on = False
    compare(bad, before_out, outside(w, fa), "outside")
    trouble = None
    if done:
        n["completed_early"] = 1
        trouble = runs.trouble(st.res)
    elif st.res.status not in ("exit", "killed"):
        trouble = runs.trouble(st.res)
    if not bad and not trouble and not done:
        n["interrupted"] = 1
        if fa != fb:
            os.rename(fa, fb)
        if cd:
            os.chdir(w.path(cd))
        before_out = outside(w, fb)
        foreign = {}
        for f in ("notes.txt", "my_posterior.dat", "xprior_samples_7.dat", "prior_samples_x.dat"):
            with open(os.path.join(fb, f), "w") as h:
                h.write("of somebody else\n")
            foreign[os.path.join(fb, f)] = picture(fb)[os.path.join(fb, f)]
        w.allowed = [fb]
        w.on = True
        ints = [dict(kind="group", sig="SIGTERM", ops=25, lines=0)] if case["again"] else []
        for st in history.play(dict(case, interrupts=ints, seed=case["seed"] + 1), second):
            pass
        w.on = False
        n["resumed_elsewhere"] = int(first != second)
        trouble = runs.trouble(st.res)
        finish(w, bad, n, fb, before_out, foreign)
    else:
        w.verdict(bad, n)
    return dict(trouble=None if bad else trouble, bad=bad, n=n, trace=(case["move"], case["name"], n.get("own_events")))


def real_case(case):
    w = World(case["scratch"])
    bad, n = [], {}
    given, folder = place(w, case["name"], case["style"])
    before_in = furnish(w, folder, case["name"])
    before_out = outside(w, folder)
    w.allowed = [folder]
    import cpnest
    model = runs.make(case["model"])
    w.on = True
    trouble = None
    signal.alarm(240)
    try:
        cp = cpnest.CPNest(model, **dict(case["kw"], seed=case["seed"] % 1000, output=given))
        cp.run()
        if any(p.exitcode for p in cp.process_pool):
            trouble = "exit codes of the samplers %s" % [p.exitcode for p in cp.process_pool]
        cp.manager.shutdown()
    except Exception:
        import traceback
        trouble = traceback.format_exc()
    signal.alarm(0)
    w.on = False
    n["real_processes"] = case["kw"]["nthreads"] + 1
    finish(w, bad, n, folder, before_out, before_in)
    return dict(trouble=None if bad else trouble, bad=bad, n=n, trace=("real", case["name"], n.get("own_events")))


def one(case):
    return globals()[case["kind"] + "_case"](case)


def run(chk):
    import matplotlib.pyplot, cpnest, cpnest.plot          # so that their caches are made before anything is watched
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=280), least=0.9):
        chk.case(v["trace"], nontrivial=v["n"].get("own_writes", 0) > 0, sample=runs.describe(case)[:300])
        chk.count("cases_" + case["kind"])
    chk.require("own_writes", 300)
    chk.require("own_deletions", 20)
    chk.require("resumed_elsewhere", 4)
    chk.require("files_of_others_compared", 300)
    chk.require("real_processes", 4)
    if chk.counts["audit_trouble"]:
        chk.inconclusive("%d audit events could not be judged" % chk.counts["audit_trouble"])
