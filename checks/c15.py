"""C15: live points against a reference of named lists of doubles, operation by operation."""
import copy, math, pickle, random, struct
import numpy as np
from array import array
from vlib import runs
from vlib.check import forked

RULE = "one case = one random sequence of operations on a population of live points, every point compared with the reference after every operation; all non-trivial"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: executable reference model compared bit for bit after every operation of random operation sequences"
NOTE = "Every operation of the explored sequences is judged, including that bystanders did not change. Sequences and values are sampled by seed."
ASSUMPTIONS = ["quotients may be one rounding off (the package is compiled with -ffast-math)", "payloads of NaN are not compared"]
SPECIAL = [0.0, -0.0, 1.0, -1.0, 5e-324, 2.2250738585072014e-308, 1e308, -1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 0.1, 1 / 3.0,
           16777217.0, 1e16 + 2, 1e-17, 123456789.123456789]


def bits(x):
    return "nan" if x != x else struct.pack("<d", x)


def same(a, b):
    return bits(a) == bits(b)


def cases(chk):
    r = random.Random(chk.seed * 236887691 + 15)
    return [dict(model=("-", {}), kw={}, n=8000 if chk.thorough else 1200, seed=r.randrange(1, 10 ** 6), scratch=chk.scratch) for _ in range(16 if chk.thorough else 8)]


class Ref:
    __slots__ = ("names", "v", "logL", "logP")

    def __init__(self, names, v, logL=-math.inf, logP=-math.inf):
        self.names, self.v, self.logL, self.logP = list(names), [float(x) for x in v], logL, logP

    def clone(self):
        return Ref(self.names, self.v, self.logL, self.logP)


def fdiv(a, b):
    if b == 0:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def one(case):
    from cpnest.parameter import LivePoint
    r = random.Random(case["seed"])
    bad, n = [], dict(operations=0, comparisons=0, copies=0, unknown_names=0, other_names=0, sequences=0, special_values=0)

    def num():
        k = r.random()
        if k < 0.3:
            n["special_values"] += 1
            return r.choice(SPECIAL)
        return r.gauss(0, 1) * 10 ** r.uniform(-20, 20) if k < 0.6 else r.gauss(0, 1)

    def diff(p, q):
        n["comparisons"] += 1
        if list(p.names) != q.names or p.dimension != len(q.names) or len(p) != len(q.names) or list(p.keys()) != q.names:
            return "names %s, expected %s" % (list(p.names), q.names)
        got = list(p.values)
        if len(got) != len(q.v) or not all(same(a, b) for a, b in zip(got, q.v)):
            return "values %s, expected %s" % (got, q.v)
        for nm, x in zip(q.names, q.v):
            if not same(p[nm], x):
                return "[%r] is %r, expected %r" % (nm, p[nm], x)
        if not (same(p.logL, q.logL) and same(p.logP, q.logP)):
            return "logL %r logP %r, expected %r %r" % (p.logL, p.logP, q.logL, q.logP)

    for s in range(case["n"]):
        d = r.choice([1, 1, 2, 3, 5, 12, 40])
        pool = ["x%d" % i for i in range(d)] if r.random() < 0.6 else r.sample(["a b", "\u03b1", "0", "", "x", "X", "x ", "log", "M/c", "_", "len", "names"] + ["n%d" % i for i in range(40)], d)
        pts = []
        alive = []

        def new(pool=pool):
            v = [num() for _ in range(d)]
            if r.random() < 0.2:
                p, q = LivePoint(list(pool)), Ref(pool, [0.0] * d)
            else:
                a = array("d", v)
                p = LivePoint(list(pool), d=a)
                q = Ref(pool, v)
                if r.random() < 0.3:
                    a[r.randrange(d)] = 4.25          # the caller's array is its own
                if r.random() < 0.3:
                    l1, l2 = num(), num()
                    p, q = LivePoint(list(pool), d=array("d", v), logL=l1, logP=l2), Ref(pool, v, l1, l2)
            return [p, q]
        pts = [new() for _ in range(3)]
        # operands of other names, or of the same names in another order, pair by position
        other = r.sample(pool, d) if r.random() < 0.5 else ["other%d" % i for i in range(d)]
        if r.random() < 0.3:
            pts[r.randrange(3)] = new(other)
            n["other_names"] += 1
        trail = []
        for step in range(r.choice([10, 40])):
            n["operations"] += 1
            i, j = r.randrange(len(pts)), r.randrange(len(pts))
            (p, q), (p2, q2) = pts[i], pts[j]
            k = num()
            op = r.choice(["set", "logs", "add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "copy", "pickle", "copymod", "deepcopy", "array", "unknown", "state", "new"])
            trail.append(op)
            tol = False
            quiet = dict(all="ignore")
            try:
                if op == "set":
                    c = r.randrange(d)
                    p[q.names[c]] = k; q.v[c] = k
                elif op == "logs":
                    p.logL = k; q.logL = k
                    k2 = num(); p.logP = k2; q.logP = k2
                elif op in ("add", "sub"):
                    z = p + p2 if op == "add" else p - p2
                    w = Ref(q.names, [a + b if op == "add" else a - b for a, b in zip(q.v, q2.v)], z.logL, z.logP)
                    pts.append([z, w])
                elif op == "mul":
                    z = p * k
                    pts.append([z, Ref(q.names, [k * a for a in q.v], z.logL, z.logP)])
                elif op in ("div", "idiv"):
                    if op == "div":
                        try:
                            z = p / k
                        except ZeroDivisionError:
                            continue
                    else:
                        z = p
                        try:
                            z /= k
                        except ZeroDivisionError:
                            q.v = list(p.values)
                            continue
                        if z is not p:
                            bad.append(("identity", "/= returns another object"))
                    want = [fdiv(a, k) for a in q.v]
                    got = list(z.values)
                    for a, b in zip(got, want):
                        ok = same(a, b) or (b == b and abs(b) != math.inf and abs(a - b) <= 2.3e-16 * abs(b) + 5e-324) or (
                            abs(b) > 8e307 or abs(k) > 4e307 or abs(k) < 3e-308)   # the reciprocal is out of range
                        if not ok:
                            bad.append((op, "%r / %r gives %r" % (b * k, k, a)))
                    q3 = Ref(q.names, got, z.logL, z.logP)
                    if op == "div":
                        pts.append([z, q3])
                    else:
                        q.v = got
                elif op in ("iadd", "isub", "imul"):
                    z = p
                    if op == "iadd":
                        z += p2; q.v = [a + b for a, b in zip(q.v, list(q2.v))]
                    elif op == "isub":
                        z -= p2; q.v = [a - b for a, b in zip(q.v, list(q2.v))]
                    else:
                        z *= k; q.v = [a * k for a in q.v]
                    if z is not p:
                        bad.append(("identity", op + " returns another object"))
                elif op in ("copy", "deepcopy", "pickle", "copymod"):
                    n["copies"] += 1
                    z = p.copy() if op == "copy" else copy.deepcopy(p) if op == "deepcopy" else copy.copy(p) if op == "copymod" else pickle.loads(pickle.dumps(p, r.choice([0, 1, 2, 3, 4, 5])))
                    if type(z) is not LivePoint or z is p:
                        bad.append(("copy-type", "%s gives a %s" % (op, type(z).__name__)))
                    pts.append([z, q.clone()])
                    # change one of them, the other must stay
                    t = pts[-1] if r.random() < 0.5 else pts[i]
                    c = r.randrange(d)
                    t[0][t[1].names[c]] = k; t[1].v[c] = k
                elif op == "state":
                    z = LivePoint(list(q.names))
                    st = p.__getstate__()
                    z.__setstate__(st)
                    pts.append([z, q.clone()])
                    c = r.randrange(d)
                    z[q.names[c]] = k; pts[-1][1].v[c] = k
                elif op == "array":
                    if "" in q.names:
                        continue
                    a = p.asnparray()
                    if a.shape != (1,) or a.dtype.names != tuple(q.names) + ("logL", "logPrior") or any(a.dtype[m] != np.dtype("f8") for m in a.dtype.names):
                        bad.append(("array", "record array of shape %s with %s" % (a.shape, a.dtype)))
                    elif not (all(same(float(a[m][0]), x) for m, x in zip(q.names, q.v)) and same(float(a["logL"][0]), q.logL) and same(float(a["logPrior"][0]), q.logP)):
                        bad.append(("array", "record array %s of a point with %s %r %r" % (a, q.v, q.logL, q.logP)))
                    for m in a.dtype.names:
                        a[m] = -77.5
                elif op == "unknown":
                    n["unknown_names"] += 1
                    m = "no such parameter"
                    for f in (lambda: p[m], lambda: p.__setitem__(m, 1.0)):
                        try:
                            f()
                            bad.append(("unknown-name", "access to %r does not fail" % m))
                        except KeyError:
                            pass
                else:
                    pts.append(new())
            except Exception as e:
                bad.append((op + "-raises", "%s raised %r" % (op, e)))
            for t in pts:
                dd = diff(*t)
                if dd:
                    bad.append((op, "after %s: %s" % (trail[-3:], dd)))
                    break
            if bad:
                break
            if len(pts) > 7:
                del pts[r.randrange(len(pts))]
        n["sequences"] += 1
        if len(bad) > 4:
            break
    return dict(trouble=None, bad=bad[:8], n=n, trace=case["seed"])


def run(chk):
    for case, v in runs.conclude(chk, forked(cases(chk), one, timeout=300)):
        for i in range(v["n"]["sequences"]):
            chk.case((case["seed"], i), True, sample=dict(seed=case["seed"], observed=v["n"]) if not i else None)
    for k, least in dict(operations=10000, comparisons=50000, copies=1000, unknown_names=300).items():
        chk.require(k, least)
