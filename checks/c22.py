"""C22: model helpers observed over hostile bounds: strict in_bounds, uniform new points on the support, default prior, unit-cube maps."""
import math, random
import numpy as np
from array import array
from scipy import stats
from vlib.check import forked

RULE = ("one case = one model (bounds, dimension, support) whose helpers are called on thousands of points; distinct = distinct bounds and support; non-trivial = the model has a "
        "point of every class: inside, on each boundary, one float beyond it, NaN")
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every call of a helper compared with its specification (classification, inverse maps) and a Kolmogorov-Smirnov oracle on the drawn points"
NOTE = ("Bounds, dimensions and supports are generated by seed. Ranges b-a that overflow a double are left out. Uniformity is decided by KS tests (marginals, radial and pairwise "
        "statistics, serial order) with a false-alarm probability below 1e-9 each.")
ASSUMPTIONS = []
P = 1e-10


def gen_bounds(r, d):
    out = []
    for _ in range(d):
        k = r.choice(["unit", "neg", "mixed", "tiny", "huge", "offset", "any", "narrow"])
        if k == "unit": b = (0.0, 1.0)
        elif k == "neg": b = (-r.uniform(5, 9), -r.uniform(0.1, 4))
        elif k == "mixed": b = (-r.uniform(0.1, 1e3), r.uniform(0.1, 1e-2 + 1e3))
        elif k == "tiny": b = (r.uniform(-1, 1) * 1e-200, 2e-200)
        elif k == "huge": b = (-10 ** r.uniform(100, 300), 10 ** r.uniform(100, 300))
        elif k == "offset": b = (1e9, 1e9 + r.uniform(1, 100))
        elif k == "narrow": b = (1.0, 1.0 + 1e-9)
        else:
            b = tuple(sorted(r.gauss(0, 1) * 10 ** r.uniform(-5, 5) for _ in range(2)))
        if r.random() < 0.2 and all(float(int(x)) == x for x in b if abs(x) < 1e15) and abs(b[0]) < 1e15:
            b = (int(b[0]), int(b[1]))          # users write integers
        out.append(b)
    return out


def cases(chk):
    r = random.Random(chk.seed * 7907 + 22)
    out = []
    for i in range(160 if chk.thorough else 40):
        d = [1, 2, 3, 5, 8, 20][i % 6]
        sup = [None, "disc", "half", "corr", "slab", "gauss"][(i // 2) % 6]
        if d < 2 and sup in ("disc", "corr"):
            sup = "half"
        out.append(dict(d=d, bounds=gen_bounds(r, d), sup=sup, seed=r.randrange(1, 2 ** 31), n=40000 if chk.thorough else 8000))
    for i in range(24 if chk.thorough else 8):      # a support which is a small part of the box: thousands of tries per point
        out.append(dict(d=[1, 2, 4][i % 3], bounds=gen_bounds(r, [1, 2, 4][i % 3]), sup="part", part=[150, 600, 2500, 6000][i % 4], seed=r.randrange(1, 2 ** 31),
                        n=(4 if chk.thorough else 1) * [1500, 800, 300, 150][i % 4]))
    return out


def run_case(case):
    import cpnest.model
    from cpnest.parameter import LivePoint
    r = random.Random(case["seed"])
    np.random.seed(case["seed"] % 2 ** 32)
    d, B = case["d"], case["bounds"]
    lab = ["x%d" % i for i in range(d)]
    r.shuffle(lab)
    bad, n = [], dict(points=0, draws=0, boundary_points=0, tests=0)
    lo, hi = np.array([b[0] for b in B], float), np.array([b[1] for b in B], float)
    with np.errstate(all="ignore"):
        width = hi - lo

    class Flat(cpnest.model.Model):
        names, bounds = lab, B

        def log_likelihood(self, p):
            return 0.0

    def inside(u):
        """the support, in units of the box"""
        s = case["sup"]
        if s == "disc": return (u[:, 0] - .5) ** 2 + (u[:, 1] - .5) ** 2 < .2
        if s == "half": return u[:, 0] > .35
        if s == "corr": return u[:, 0] < u[:, 1]
        if s == "slab": return abs(u[:, -1] - .5) > .3
        if s == "part": return (u[:, 0] > .3) & (u[:, 0] < .3 + 1 / case["part"])
        return np.ones(len(u), bool)

    class Sup(Flat):
        calls = 0

        def log_prior(self, p):
            self.calls += 1
            if not self.in_bounds(p):
                return -np.inf
            u = (np.array(p.values) - lo) / width
            if not inside(u[None])[0]:
                return -np.inf
            # finite, however small, and not flat: new points are uniform on the support all the same
            return -700.0 * u[0] if case["sup"] == "gauss" else (3.0 if u[0] > .7 else -1e5)

    def pt(v):
        return LivePoint(list(lab), d=array("d", [float(x) for x in v]))

    def flag(m, msg):
        if len(bad) < 10:
            bad.append((m, msg))

    # ---- classification
    m = Flat()
    specials = []
    for b in B:
        a, c = float(b[0]), float(b[1])
        specials.append([a, c, math.nextafter(a, -math.inf), math.nextafter(c, math.inf), math.nextafter(a, math.inf), math.nextafter(c, -math.inf),
                         math.nan, math.inf, -math.inf, a - (c - a), c + (c - a)])
    todo = []
    for i in range(d):
        base = lo + width * np.array([r.uniform(.05, .95) for _ in range(d)])
        for s in specials[i]:
            v = base.copy(); v[i] = s
            todo.append(v)
    for _ in range(400):
        v = lo + width * np.array([r.uniform(-.02 if r.random() < .2 else 0.001, .999) for _ in range(d)])
        if r.random() < .3:
            i = r.randrange(d); v[i] = r.choice(specials[i])
        todo.append(v)
    todo += [lo.copy(), hi.copy(), lo + width / 2]
    for v in todo:
        want = all(lo[i] < v[i] < hi[i] for i in range(d))
        p = pt(v)
        before = p.values.tobytes()
        got, lp, pot = m.in_bounds(p), m.log_prior(p), m.potential(p)
        n["points"] += 1
        n["boundary_points"] += int(bool(np.any((v == lo) | (v == hi))))
        if bool(got) != want:
            flag("in-bounds", "in_bounds(%s) is %r for bounds %s" % (list(v), got, B))
        if lp != (0.0 if want else -np.inf):
            flag("default-prior", "default log_prior(%s) = %r for bounds %s" % (list(v), lp, B))
        if pot != -lp:
            flag("potential", "potential %r is not minus the log-prior %r" % (pot, lp))
        if p.values.tobytes() != before:
            flag("argument-changed", "a helper changed the point it was given")

    # ---- unit cube
    for _ in range(300):
        u = np.array([r.choice([r.random(), r.random() ** 8, 0.0, 1.0, .5]) for _ in range(d)])
        p = m.from_normalised(u if r.random() < .5 else array("d", u))
        w = lo + u * width
        tol = 8 * np.finfo(float).eps * (np.abs(lo) + np.abs(hi)) + 5e-324
        v = np.array(p.values)
        if list(p.names) != lab or v.shape != (d,):
            flag("from-normalised-names", "from_normalised returned names %s" % (list(p.names),)); break
        if not np.all(np.abs(v - w) <= tol):
            flag("from-normalised", "from_normalised(%s) = %s for bounds %s" % (list(u), list(v), B))
        q = np.array(m.to_normalised(p))
        with np.errstate(all="ignore"):
            tu = 16 * np.finfo(float).eps * (1 + (np.abs(lo) + np.abs(hi)) / width)
        if q.shape != (d,) or not np.all(np.abs(q - u) <= tu):
            flag("to-normalised", "to_normalised(from_normalised(%s)) = %s for bounds %s" % (list(u), list(q), B))
        x = lo + width * np.array([r.random() for _ in range(d)])
        y = np.array(m.from_normalised(m.to_normalised(pt(x))).values)
        if not np.all(np.abs(y - x) <= 4 * tol):
            flag("to-from", "from_normalised(to_normalised(%s)) = %s for bounds %s" % (list(x), list(y), B))
        n["points"] += 3

    # ---- drawn points
    for M in (Flat, Sup) if case["sup"] else (Flat,):
        m = M()
        N = case["n"] if d <= 8 else case["n"] // 4
        X = np.empty((N, d))
        for i in range(N):
            p = m.new_point()
            if list(p.names) != lab or len(p.values) != d:
                flag("new-point-names", "new_point has names %s" % (list(p.names),)); break
            X[i] = p.values
        n["draws"] += N
        if bad and bad[-1][0] == "new-point-names":
            break
        narrow = width < 1e-8 * np.maximum(abs(lo), abs(hi))     # few floats in the range: a draw may be rounded onto a bound
        ok = ((X > lo) | ((X == lo) & narrow)) & ((X < hi) | ((X == hi) & narrow))
        if not ok.all():
            flag("new-point-bounds", "new_point returned %s for bounds %s" % (X[~ok.all(1)][0].tolist(), B))
        U = (X - lo) / width
        if M is Sup and not inside(U).all():
            flag("new-point-support", "new_point returned %s outside the support %s" % (X[~inside(U)][0].tolist(), case["sup"]))
        # reference: uniform in the box, rejected outside the support
        g = np.random.RandomState(case["seed"] % 1000 + 7)
        V = g.uniform(size=(4 * N + 4000, d))
        if M is Sup and case["sup"] == "part":
            V[:, 0] = .3 + V[:, 0] / case["part"]
        elif M is Sup:
            V = V[inside(V)]
        stat = [("parameter %d" % i, (lambda W, i=i: W[:, i])) for i in range(d)]
        if d > 1:
            i, j = r.sample(range(d), 2)
            stat += [("sum %d %d" % (0, d - 1), lambda W: W[:, 0] + W[:, -1]), ("difference %d %d" % (i, j), lambda W: W[:, i] - W[:, j]),
                     ("smallest", lambda W: W.min(1)), ("distance from the centre", lambda W: ((W - .5) ** 2).sum(1))]
        stat.append(("consecutive draws", lambda W: W[1::2, 0][:len(W) // 2] - W[0::2, 0][:len(W) // 2]))
        for name, f in stat:
            n["tests"] += 1
            pv = stats.ks_2samp(f(U), f(V), method="asymp").pvalue
            if pv < P:
                flag("new-point-distribution", "%d new points, bounds %s, support %s: %s is not uniform on the support, KS p=%.2g" % (N, B, case["sup"] if M is Sup else "box", name, pv))
        if len(np.unique(X[:, 0])) < 0.2 * N and not narrow[0] and case["sup"] != "part":
            flag("new-point-distribution", "new points repeat themselves: %d different values in %d draws" % (len(np.unique(X[:, 0])), N))
    return dict(bad=bad, n=n)


def run(chk):
    for o in forked(cases(chk), run_case, timeout=600):
        c = o.case
        desc = "d=%d bounds=%s support=%s seed=%d" % (c["d"], c["bounds"][:4], c["sup"], c["seed"])
        if o.status == "error":
            chk.violation("helper-failed", desc + ": " + o.value[-900:], case=c)
            continue
        if o.status != "ok":
            chk.inconclusive(desc + ": %s %s" % (o.status, o.value))
            continue
        for mech, msg in o.value["bad"]:
            chk.violation(mech, msg, case=c)
        for k, v in o.value["n"].items():
            chk.count(k, v)
        chk.case((str(c["bounds"]), c["sup"]), sample=desc)
    chk.require("points", 20000)
    chk.require("draws", 100000)
    chk.require("boundary_points", 200)
    chk.assumptions += ["numpy's uniform generator is uniform"]
