"""C12: every file a run leaves behind is parsed and compared with what the run returns."""
import os, random, re, tempfile, shutil
import numpy as np
from vlib import runs, history, models as M
from vlib.check import forked

RULE = ("one case = one complete run (or interrupted and resumed run) whose files are all parsed and compared, number by number, with the arrays and the evidence it returned; "
        "non-trivial if at least the chain, header and evidence files were compared")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: offline comparison of the files of monitored runs with the returned arrays and the recorded points"
NOTE = "Every number in every file of the explored runs is compared; names, magnitudes, dimensions and configurations are sampled by seed. Plots are only required not to fail."
ASSUMPTIONS = ["parameter names contain no white space", "the chain gives log-likelihoods to seven significant digits, the evidence file log-evidences to five and information to two decimals"]

ODD = ["#a", "a,b", "1", "2nd", "logL2", "a.b", "a:b", "'q'", '"dq"', "{0}", "%s", "$x_1$", "$", "\\frac", "a/b", "é", "日本", "class", "mass-1", "A", "a", "x[0]", "(y)", "a=b", "a;b", "_", "None",
       "logZ", "names", "values", "logP", "x" * 60, "+", "*", "~", "@", "&"]


def Scaled(exps, labels, offset=0.0, steep=1.0, flat=True):
    """each parameter lives on its own scale, around a centre that may be much larger than its range"""
    return _Scaled(exps, labels, offset, steep, flat)


class _Scaled(M.Base):
    def __init__(self, exps, labels, offset, steep, flat):
        self.names = list(labels)
        self.offset, self.steep, self.flat = offset, steep, flat
        self.c = [c for c, w in exps]
        self.w = [w for c, w in exps]
        self.bounds = [(c - w, c + w) for c, w in exps]

    def log_likelihood(self, p):
        return float(self.offset - 0.5 * self.steep * sum(((v - c) / w * 3) ** 2 for v, c, w in zip(p.values, self.c, self.w)))

    def log_prior(self, p):
        if not self.in_bounds(p):
            return -np.inf
        return 0.0 if self.flat else float(-sum((v - c) / w for v, c, w in zip(p.values, self.c, self.w)) - 700.25)


class Derived(_Scaled):
    """a user's own columns in the chain file"""
    def header(self):
        return "derived\t" + super().header()

    def strsample(self, p):
        return "{0:.12e}\t".format(sum(p.values)) + super().strsample(p)


M.Scaled, M.Derived = Scaled, Derived


def cases(chk):
    r = random.Random(chk.seed * 295075147 + 12)
    out = []
    scales = [(0, 1), (0, 1e-12), (0, 1e12), (1e6, 1e-3), (-3e4, 2e4), (0, 1e-150), (0, 1e100), (5.0, 5.0), (1.2345678e9, 1.0), (-1e-7, 1e-7)]
    for i in range(160 if chk.thorough else 44):
        d = r.choice([1, 1, 2, 3, 5, 9])
        labels = r.sample(ODD, d) if i % 4 else M.names(d)
        n = r.choice([1, 2, 3])
        kind = ["Scaled", "Scaled", "Scaled", "Derived"][i % 4]
        kw = dict(labels=labels, exps=[r.choice(scales) for _ in range(d)], offset=r.choice([0.0, 0.0, 1e8, -1234.5, -1e7, 1e-9, 3e4]), steep=r.choice([1.0, 1.0, 0.01, 30.0]) if d < 4 else 0.3, flat=bool(r.randrange(2)))
        run = dict(nthreads=n, nlive=r.choice([n + 1, n + 2, 5 if n < 4 else 8, 12, 40]), maxmcmc=r.choice([1, 2, 5, 10]) if d < 3 else 10, poolsize=r.choice([8, 12, 20]) if d < 5 else 30, nslice=[0, 0, 1, n][i % 4], verbose=[0, 3, 2, 3, 1][i % 5],
                   prior_sampling=i % 9 == 7)
        out.append(dict(kind="run", model=(kind, kw), kw=run, policy=r.choice(runs.POLICIES), budget=30000, tol=r.choice([0.1, 2.0]) if d < 3 else 4.0, seed=r.randrange(1, 10 ** 6)))
    std = [("gauss", dict(d=2)), ("Disc", {}), ("HoleL", dict(cut=0.4)), ("gauss_prior", {}), ("Staircase", {}), ("uneven", {})]
    for i in range(40 if chk.thorough else 12):
        n = r.choice([1, 2])
        ints = [dict(kind=r.choice(["group", "group", "crash"]), sig=r.choice(history.SIGS), ops=r.randrange(5, 120), lines=r.choice([0, 0, r.randrange(300)])) for _ in range(r.choice([1, 1, 2]))]
        out.append(dict(kind="resumed", model=std[i % len(std)], kw=dict(nthreads=n, nlive=r.choice([8, 14]), maxmcmc=5, poolsize=10, nslice=i % 2, verbose=[3, 0, 2][i % 3]), policy=r.choice(runs.POLICIES[:3]),
                        interrupts=ints, seed=r.randrange(1, 10 ** 6)))
    for i in range(6 if chk.thorough else 2):
        out.append(dict(kind="run", model=("gauss_prior", {}), kw=dict(nthreads=2, nlive=10, maxmcmc=5, poolsize=30, nhamiltonian=1, verbose=3), policy={}, seed=r.randrange(1, 10 ** 6)))
    return [dict(c, scratch=chk.scratch) for c in out]


# ---------------------------------------------------------------- parsing
def table(path, comment):
    """(names, rows of floats) of a file of columns separated by white space"""
    with open(path) as f:
        lines = f.read().split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    names = None
    if comment is not None:
        head = lines.pop(0)
        if comment:
            if not head.startswith(comment):
                raise ValueError("first line %r" % head[:200])
            head = head[len(comment):]
        names = head.split()
    return names, [[float(x) for x in l.split()] for l in lines]


def same(a, b, rel=0.0):
    if a == b or (a != a and b != b):
        return True
    return rel > 0 and abs(a - b) <= rel * max(abs(a), abs(b))


def near(a, b, d):
    a, b = float(a), float(b)
    return same(a, b) or abs(a - b) <= d + 4e-16 * abs(b)


def compare(bad, n, what, rows, want, rel=()):
    """rows of a file against rows of numbers; rel: relative precision of the last columns, if not exact"""
    if len(rows) != len(want):
        bad.append(("rows", "%s has %d rows, %d were returned" % (what, len(rows), len(want))))
        return
    for i, (a, b) in enumerate(zip(rows, want)):
        if len(a) != len(b):
            bad.append(("columns", "%s, row %d has %d columns, expected %d" % (what, i, len(a), len(b))))
            return
        for j, (x, y) in enumerate(zip(a, b)):
            n["numbers"] += 1
            if not same(x, y, rel[j] if rel else 0.0):
                bad.append(("number", "%s, row %d, column %d: %r in the file, %r returned" % (what, i, j, x, y)))
                return


def rows_of(a):
    return [[float(r[c]) for c in a.dtype.names] for r in np.asarray(a).ravel()]


def check_files(cp, model, folder, kw, bad, n, lines=None, samplers=()):
    names = list(model.names)
    cols = names + ["logL", "logPrior"]
    ns = cp.NS
    pts = list(ns.nested_samples)
    objs = [[float(p[c]) for c in names] + [float(p.logL), float(p.logP)] for p in pts]

    def path(f):
        return os.path.join(folder, f)

    def file(f, arr, comment="# "):
        try:
            hd, rows = table(path(f), comment)
        except FileNotFoundError:
            bad.append(("missing", "%s was not written (verbose=%d)" % (f, kw["verbose"])))
            return
        except ValueError as e:
            bad.append(("unreadable", "%s: %s" % (f, e)))
            return
        if comment is not None and hd != list(arr.dtype.names):
            bad.append(("header", "%s says %s, columns are %s" % (f, hd, arr.dtype.names)))
        n["files"] += 1
        n["rows"] += len(rows)
        compare(bad, n, f, rows, rows_of(arr) if comment is not None else [[float(x)] for x in arr])

    # returned arrays say what was recorded
    arr = getattr(cp, "nested_samples", None)
    if arr is None:
        bad.append(("returned", "no nested samples were returned"))
        return
    for w, a in (("nested samples", arr),) + ((("posterior samples", cp.posterior_samples),) if not kw.get("prior_sampling") or cp.posterior_samples is not None else ()):
        if a is None or list(a.dtype.names) != cols:
            bad.append(("columns", "%s have columns %s, expected %s" % (w, a if a is None else a.dtype.names, cols)))
            return
    compare(bad, n, "array of nested samples", rows_of(arr), objs)
    known = {tuple(o) for o in objs}
    for r in rows_of(cp.posterior_samples):
        if tuple(r) not in known and r == r:
            bad.append(("posterior-rows", "posterior sample %s is no nested sample" % r))
            break
    # chain, header, evidence
    chain = [f for f in os.listdir(folder) if re.fullmatch(r"chain_\d+_-?\d+\.txt", f)]
    evid = [f for f in os.listdir(folder) if f.endswith("_evidence.txt")]
    if len(chain) != 1 or len(evid) != 1:
        bad.append(("missing", "chain files %s, evidence files %s" % (chain, evid)))
        return
    if chain[0] != "chain_%d_%d.txt" % (kw["nlive"], cp.seed) or evid[0] != chain[0] + "_evidence.txt":
        bad.append(("missing", "chain %s and evidence %s for %d live points and seed %d" % (chain, evid, kw["nlive"], cp.seed)))
    try:
        hd, rows = table(path(chain[0]), "")
    except ValueError as e:
        bad.append(("unreadable", "%s: %s" % (chain[0], e)))
        return
    want_hd = names + ["logL"]
    want = [o[:-1] for o in objs]
    rel = [0.0] * len(names) + [6e-7]
    if lines is not None:
        want_hd = model.header().split()
        want = [[float(x) for x in model.strsample(p).split()] for p in pts]
        rel = None
    if hd != want_hd:
        bad.append(("header", "the chain says %s, expected %s" % (hd, want_hd)))
    n["files"] += 3
    n["rows"] += len(rows)
    compare(bad, n, "chain", rows, want, rel)
    with open(path("header.txt")) as f:
        h = f.read()
    if h.split() != names + ["logL"] or h.count("\n") > 1:
        bad.append(("header", "header.txt says %r, expected %s" % (h, names + ["logL"])))
    with open(path(evid[0])) as f:
        e = f.read().strip().split("\n")
    if len(e) != 2 or e[0].lstrip("#").split() != ["logZ", "logLmax", "H"]:
        bad.append(("evidence", "evidence file %r" % e))
    else:
        z, lmax, H = (float(x) for x in e[1].split())
        best = max([o[-2] for o in objs if o[-2] == o[-2]] or [-np.inf])
        if not (near(z, ns.state.logZ, 5.1e-6) and near(H, ns.state.info, 5.1e-3)):
            bad.append(("evidence", "evidence file %r; log-evidence %r, information %r" % (e[1], ns.state.logZ, ns.state.info)))
        if not kw.get("prior_sampling") and not same(float(ns.logZ), float(ns.state.logZ)):
            bad.append(("evidence", "NS.logZ is %r, state.logZ %r" % (ns.logZ, ns.state.logZ)))
        if not (lmax >= best or near(lmax, best, 5.1e-6)) or not (lmax <= ns.logLmax.value or near(lmax, ns.logLmax.value, 5.1e-6)):
            bad.append(("evidence", "maximum log-likelihood %r in the file, %r in a sample, %r at the end" % (lmax, best, ns.logLmax.value)))
    if os.path.exists(path("cpnest.log")) and not kw.get("prior_sampling"):
        with open(path("cpnest.log"), errors="replace") as f:
            log = f.read()
        for word, val in (("Final evidence", ns.state.logZ), ("Information", ns.state.info)):
            m = re.findall(word + r": (\S+)", log)
            if m and not near(float(m[-1].rstrip(".,")), val, 5.1e-3):
                bad.append(("log", "%s in the log is %s, the value is %r" % (word, m[-1], val)))
            n["log_lines"] += len(m)
    # files by verbosity
    v = kw["verbose"]
    if v >= 2:
        file("nested_samples.dat", arr)
        file("posterior.dat", cp.posterior_samples)
        if ns.insertion_indices or os.path.exists(path("insertion_indices.dat")):
            file("insertion_indices.dat", ns.insertion_indices, None)
    if v >= 3 or kw.get("prior_sampling"):
        if cp.prior_samples is None or list(cp.prior_samples.dtype.names) != cols:
            bad.append(("returned", "prior samples %r" % (cp.prior_samples if cp.prior_samples is None else cp.prior_samples.dtype.names,)))
        elif v >= 3:
            file("prior.dat", cp.prior_samples)
    if v >= 3 and not kw.get("prior_sampling"):
        if cp.mcmc_samples is None or list(cp.mcmc_samples.dtype.names) != cols:
            bad.append(("returned", "MCMC samples %r" % (cp.mcmc_samples if cp.mcmc_samples is None else cp.mcmc_samples.dtype.names,)))
        else:
            file("mcmc.dat", cp.mcmc_samples)
            if samplers:
                made = {tuple([float(p[c]) for c in names] + [float(p.logL), float(p.logP)]) for s in samplers for p in s.samples}
                for r in rows_of(cp.mcmc_samples):
                    n["mcmc_rows"] += 1
                    if tuple(r) not in made:
                        bad.append(("mcmc-rows", "MCMC sample %s was made by no sampler" % r))
                        break
    # files written on request, at any verbosity
    if not bad:
        a = cp.get_nested_samples()
        compare(bad, n, "nested samples asked for again", rows_of(a), objs)
        file("nested_samples.dat", a)
        a = cp.get_nested_samples(filename="other.dat")
        file("other.dat", a)
        a = cp.get_posterior_samples(filename="more.dat")
        file("more.dat", a)
        if any(tuple(r) not in known for r in rows_of(a)):
            bad.append(("posterior-rows", "a posterior sample asked for later is no nested sample"))


def new():
    return dict(numbers=0, files=0, rows=0, log_lines=0, mcmc_rows=0, resumed=0, few=0, folders_used_before=0)


def run_case(case):
    folder = tempfile.mkdtemp(prefix="c12-", dir=case["scratch"])
    n, bad = new(), []
    if case["seed"] % 2:
        # what an earlier run left there is not what this one returns
        old, _, _ = runs.simulate(dict(case, seed=case["seed"] + 1, kw=dict(case["kw"], seed=case["seed"] % 100000 + 1)), folder,
                                  before_run=lambda cp: setattr(cp.NS, "tolerance", case.get("tol", 0.1) * 2))
        n["folders_used_before"] = int(old.status == "ok")
    res, sim, model = runs.simulate(case, folder, before_run=lambda cp: setattr(cp.NS, "tolerance", case.get("tol", 0.1)))
    t = runs.trouble(res)
    if not t:
        n["few"] = int(len(res.cp.posterior_samples) < 50)
        check_files(res.cp, model, folder, res.kw, bad, n, lines=True if case["model"][0] == "Derived" else None, samplers=runs.samplers(res.cp))
        n["verbose_%d" % res.kw["verbose"]] = 1
    shutil.rmtree(folder, ignore_errors=True)
    return dict(trouble=t, bad=bad, n=n, trace=sim.trace_hash)


def resumed_case(case):
    folder = tempfile.mkdtemp(prefix="c12-", dir=case["scratch"])
    n, bad, st = new(), [], None
    for st in history.play(case, folder):
        pass
    t = runs.trouble(st.res)
    if not t:
        n["resumed"] = int(st.index > 0)
        check_files(st.res.cp, st.model, folder, st.res.kw, bad, n)
    shutil.rmtree(folder, ignore_errors=True)
    return dict(trouble=t, bad=bad, n=n, trace=st.sim.trace_hash)


def one(case):
    return globals()[case["kind"] + "_case"](case)


def run(chk):
    import matplotlib.pyplot, cpnest.plot
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=250), least=0.85):
        chk.case(v["trace"], nontrivial=v["n"]["files"] >= 3, sample=runs.describe(case)[:400])
    chk.require("numbers", 10000)
    chk.require("files", 100)
    chk.require("resumed", 4)
    chk.require("few", 5)
    chk.require("log_lines", 50)
    chk.require("mcmc_rows", 100)
