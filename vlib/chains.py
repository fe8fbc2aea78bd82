"""Synthetic nested-sampling and MCMC chains, and the reference for the weights of cpnest.nest2pos."""
import math
import numpy as np


def nschain(r, N, n, kind="gauss", offset=0.0, tag=0):
    """n rows (n >= N) with a plausible likelihood sequence for N live points; column id identifies the row"""
    t = np.concatenate((-np.arange(1, n - N + 1) / float(N), -(n - N) / float(N) + np.log(np.linspace(1, 0, N, endpoint=False)[0:]))) if N > 0 else None
    t = np.sort(t)[::-1]
    if kind == "gauss":
        l = -0.5 * np.exp(t) ** 2 * 50 + r.normal(scale=1e-3, size=n)
    elif kind == "steep":
        l = -200.0 * np.exp(t / 3.0)
    elif kind == "flat":
        l = -1e-6 * np.exp(t)
    elif kind == "ties":
        l = np.round(-20 * np.exp(t / 2))
    elif kind == "zero-start":
        l = -30 * np.exp(t)
        l[:max(1, n // 8)] = -np.inf
    elif kind == "huge":
        l = -1e5 * np.exp(t / 2)
    elif kind == "random":
        l = r.normal(size=n) * 10 ** r.uniform(-2, 3)
    l = np.sort(l) + offset
    a = np.zeros(n, dtype=[("x", "f8"), ("id", "f8"), ("logL", "f8"), ("logPrior", "f8")])
    a["x"], a["id"], a["logL"] = r.normal(size=n), tag * 1e6 + np.arange(n), l
    return a


KINDS = ["gauss", "steep", "flat", "ties", "zero-start", "huge", "random"]


def volumes(n, N):
    """logs of the prior volumes X_0..X_{n+1}: one factor 1-1/N per point while N points are live, then ever fewer live points"""
    f = [0.0]
    l = math.log1p(-1.0 / N)
    for i in range(n - N + 2):
        f.append(f[-1] + l)
    for i in range(N - 1):
        f.append(f[-1] + math.log1p(-1.0 / (N - i)))
    assert len(f) == n + 2
    return np.array(f)


def weights(logl, N):
    """(log-evidence, log-weights): trapezoidal evidence, weight of point i is likelihood times X_{i-1} - X_i over the evidence"""
    n = len(logl)
    v = volumes(n, N)
    L = np.concatenate(([-np.inf], np.asarray(logl, float), [logl[-1]]))
    k = np.max(L)
    q = np.exp(L - k)
    X = np.exp(v)
    ld = v[:-1] + np.log(-np.expm1(v[1:] - v[:-1]))
    # sum in logs, the volumes may underflow
    lt = np.logaddexp(L[:-1], L[1:]) - math.log(2) + ld
    m = lt.max()
    lz = m + math.log(math.fsum(np.exp(lt - m)))
    return lz, L[1:-1] + ld[:-1] - lz
