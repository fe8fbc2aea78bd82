"""User models with known evidence, information, prior and posterior, for the statistical checks and as workloads."""
import numpy as np
from array import array
import cpnest.model
from cpnest.parameter import LivePoint

ninf = -np.inf


class Base(cpnest.model.Model):
    def force(self, x):
        return np.zeros(1, dtype={"names": list(x.names), "formats": ["f8" for _ in x.names]})

    # vectorised versions of the likelihood and prior, used by the oracles only; rows of x are points
    def vlogl(self, x):
        return np.array([self.log_likelihood(self.point(r)) for r in x])

    def vlogp(self, x):
        return np.array([self.log_prior(self.point(r)) for r in x])

    def point(self, row):
        return LivePoint(list(self.names), d=array("d", [float(v) for v in row]))

    logZ = H = None

    def posterior(self, n, rng):
        raise NotImplementedError

    def prior(self, n, rng):
        lo, hi = np.array(self.bounds, float).T
        return rng.uniform(lo, hi, size=(n, len(lo)))


def names(d):
    return ["x%d" % i for i in range(d)]


class Separable(Base):
    """log-likelihood and log-prior are sums over the parameters; everything else follows from quadrature"""
    def __init__(self, lls, lps, bounds, offset=0.0, grid=40001, labels=None, poffset=0.0):
        # the prior need not be normalised: poffset is the logarithm of a constant factor
        self.lls, self.lps, self.offset, self.poffset = lls, lps, offset, poffset
        self.names = labels or names(len(lls))
        self.bounds = [tuple(b) for b in bounds]
        self.logZ, el = offset, offset
        self.inv = []
        for ll, lp, (a, b) in zip(lls, lps, self.bounds):
            x = np.linspace(a, b, grid)
            m = 0.5 * (x[1:] + x[:-1])
            q = np.exp(lp(m)) if lp else np.ones_like(m)
            q /= q.sum()
            l = ll(m)
            k = l.max()
            w = q * np.exp(l - k)
            z = w.sum()
            self.logZ += np.log(z) + k
            w /= z
            with np.errstate(invalid="ignore"):
                el += np.sum(np.where(w > 0, w * l, 0.0))
            self.inv.append((x, np.concatenate(([0], np.cumsum(q))), np.concatenate(([0], np.cumsum(w)))))
        self.H = el - self.logZ

    def log_likelihood(self, p):
        return float(self.offset + sum(f(v) for f, v in zip(self.lls, p.values)))

    def log_prior(self, p):
        if not self.in_bounds(p):
            return ninf
        return float(self.poffset + sum(f(v) for f, v in zip(self.lps, p.values) if f))

    def potential(self, p):
        return -self.log_prior(p)

    def force(self, x):
        f = np.zeros(1, dtype={"names": list(x.names), "formats": ["f8" for _ in x.names]})
        e = 1e-5
        for n, lp in zip(x.names, self.lps):
            if lp:
                f[n] = -(lp(x[n] + e) - lp(x[n] - e)) / (2 * e)
        return f

    def _draw(self, n, rng, k):
        return np.column_stack([np.interp(rng.uniform(size=n), iv[k], iv[0]) for iv in self.inv])

    def posterior(self, n, rng):
        return self._draw(n, rng, 2)

    def prior(self, n, rng):
        return self._draw(n, rng, 1)

    def vlogl(self, x):
        return self.offset + sum(f(x[:, i]) for i, f in enumerate(self.lls))


class G:
    """-(x-m)^2/2s^2"""
    def __init__(self, m=0.0, s=1.0):
        self.m, self.s = m, s

    def __call__(self, x):
        return -0.5 * ((x - self.m) / self.s) ** 2


class Lin:
    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        return self.k * x


class Pow:
    """log of x^k, for positive x"""
    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        with np.errstate(all="ignore"):
            return np.where(np.asarray(x) > 0, self.k * np.log(np.maximum(x, 1e-300)), ninf)


class Zero:
    def __call__(self, x):
        return 0.0 * x


class Steps:
    """plateaus: the log-likelihood takes one of a few values, below a continuous top"""
    edges = 1 - 0.5 ** np.arange(1, 6)

    def __call__(self, x):
        return 0.3 * np.searchsorted(self.edges, x) + np.maximum(0.0, np.asarray(x) - self.edges[-1]) * 16


def gauss(d=1, sigma=1.0, half=5.0, offset=0.0):
    return Separable([G(0, sigma)] * d, [None] * d, [(-half, half)] * d, offset)


def gauss_prior(d=2, sp=1.0, sl=0.5, m=0.7, half=6.0, offset=0.0, poffset=0.0):
    return Separable([G(m, sl)] * d, [G(0, sp)] * d, [(-half, half)] * d, offset, poffset=poffset)


def odd_names(labels=("x/y", "../up", "a.b")):
    """parameter names with which no file can be named as they are"""
    d = len(labels)
    return Separable([G(0, 1)] * d, [None] * d, [(-5, 5)] * d, labels=list(labels))


def exp_prior(offset=0.0, poffset=0.0):
    return Separable([G(1.0, 0.4), G(2.0, 0.5)], [Lin(-0.7), Lin(0.5)], [(0, 6), (0, 5)], offset, poffset=poffset)


def pow_prior(offset=0.0, poffset=0.0):
    return Separable([Lin(1.3), G(0.3, 0.2)], [Pow(2.0), None], [(0, 2), (-1, 1)], offset, poffset=poffset)


def uneven(offset=0.0):
    return Separable([G(2e-3, 4e-4), G(1e4, 3e3), G(-5.0, 0.3)], [None] * 3,
                     [(0, 1e-2), (-2e4, 4e4), (-7, -3)], offset)


def steps(offset=0.0):
    # plateaus, each half as wide as the one before, and a slope on top of them
    return Separable([Steps()], [None], [(0, 1)], offset)


def constant(offset=0.0):
    return Separable([Zero()], [None], [(0, 1)], offset)


class Correlated(Base):
    def __init__(self, rho=0.95, half=8.0, offset=0.0):
        self.names, self.bounds, self.rho, self.offset = ["a", "b"], [(-half, half)] * 2, rho, offset
        det = 1 - rho ** 2
        self.norm = -np.log(2 * np.pi) - 0.5 * np.log(det)
        self.logZ = offset - 2 * np.log(2 * half)
        self.H = -1.0 + self.norm + offset - self.logZ

    def vlogl(self, x):
        a, b = x[:, 0], x[:, 1]
        return self.offset + self.norm - 0.5 * (a * a - 2 * self.rho * a * b + b * b) / (1 - self.rho ** 2)

    def log_likelihood(self, p):
        return float(self.vlogl(np.array([p.values]))[0])

    def posterior(self, n, rng):
        return rng.multivariate_normal([0, 0], [[1, self.rho], [self.rho, 1]], size=n)


class Bimodal(Base):
    def __init__(self, half=10.0, sep=4.0, w=0.5, offset=0.0):
        self.names, self.bounds, self.sep, self.w, self.offset = ["u", "v"], [(-half, half)] * 2, sep, w, offset
        self.logZ = offset - 2 * np.log(2 * half)
        rng = np.random.RandomState(5)
        self.H = float(np.mean(self.vlogl(self.posterior(400000, rng)))) - self.logZ

    def vlogl(self, x):
        u, v = x[:, 0], x[:, 1]
        return (self.offset + np.logaddexp(np.log(self.w) - 0.5 * (u - self.sep) ** 2, np.log(1 - self.w) - 0.5 * (u + self.sep) ** 2)
                - 0.5 * v * v - np.log(2 * np.pi))

    def log_likelihood(self, p):
        return float(self.vlogl(np.array([p.values]))[0])

    def posterior(self, n, rng):
        s = np.where(rng.uniform(size=n) < self.w, self.sep, -self.sep)
        return np.column_stack([s + rng.normal(size=n), rng.normal(size=n)])


class Disc(Base):
    """flat prior inside a disc, zero outside it (a constrained parameter space)"""
    def __init__(self, r=3.0, s=1.0, offset=0.0):
        self.names, self.bounds, self.r, self.s, self.offset = ["x", "y"], [(-4, 4)] * 2, r, s, offset
        self.logZ = offset + np.log(2 * s * s * (1 - np.exp(-r * r / 2 / s / s)) / r ** 2)
        t = r * r / 2 / s / s
        el = -(1 - (1 + t) * np.exp(-t)) / (1 - np.exp(-t))
        self.H = offset + el - self.logZ

    def log_prior(self, p):
        if not self.in_bounds(p) or p["x"] ** 2 + p["y"] ** 2 >= self.r ** 2:
            return ninf
        return 0.0

    def log_likelihood(self, p):
        return float(self.offset - 0.5 * (p["x"] ** 2 + p["y"] ** 2) / self.s ** 2)

    def vlogl(self, x):
        return self.offset - 0.5 * (x ** 2).sum(1) / self.s ** 2

    def posterior(self, n, rng):
        u = rng.uniform(size=n)
        rr = self.s * np.sqrt(-2 * np.log1p(-u * (1 - np.exp(-self.r ** 2 / 2 / self.s ** 2))))
        t = rng.uniform(0, 2 * np.pi, n)
        return np.column_stack([rr * np.cos(t), rr * np.sin(t)])

    def prior(self, n, rng):
        rr, t = self.r * np.sqrt(rng.uniform(size=n)), rng.uniform(0, 2 * np.pi, n)
        return np.column_stack([rr * np.cos(t), rr * np.sin(t)])


class Comb(Base):
    """the prior is not zero on narrow teeth only: hardly a move is accepted"""
    names, bounds = ["x", "y"], [(-3, 3), (-3, 3)]

    def __init__(self, teeth=5.0, width=0.06, offset=0.0):
        self.teeth, self.width, self.offset = teeth, width, offset

    def log_prior(self, p):
        return 0.0 if self.in_bounds(p) and all((v * self.teeth) % 1.0 < self.width for v in p.values) else ninf

    def log_likelihood(self, p):
        return float(self.offset - 0.5 * (p["x"] ** 2 + p["y"] ** 2))


class HoleL(Base):
    """the likelihood is zero (log -inf) on a part of the prior; only for structural checks"""
    names, bounds = ["x", "y"], [(0, 1), (0, 1)]

    def __init__(self, cut=0.4, offset=0.0):
        self.cut, self.offset = cut, offset

    def log_likelihood(self, p):
        return ninf if p["x"] < self.cut else float(self.offset - 8 * (p["x"] - 0.8) ** 2 - 5 * (p["y"] - 0.4) ** 2)


class NanL(HoleL):
    def log_likelihood(self, p):
        return float("nan") if p["x"] < self.cut else float(self.offset - 8 * (p["x"] - 0.8) ** 2)


class Staircase(Base):
    """many ties: log-likelihood rounded to a coarse grid, except near the maximum"""
    names, bounds = ["p", "q"], [(-3, 3), (-3, 3)]

    def __init__(self, coarse=0.25, offset=0.0):
        self.coarse, self.offset = coarse, offset

    def log_likelihood(self, p):
        l = -0.5 * (p["p"] ** 2 + p["q"] ** 2)
        return float((np.floor(l / self.coarse) * self.coarse if l < -self.coarse else l) + self.offset)
