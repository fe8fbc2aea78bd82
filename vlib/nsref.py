"""Executable reference model of the nested-sampling algorithm.

It is fed with the replies the main process received, in the order in which it received them, and predicts the live set, the
recorded samples, the insertion ranks, the evidence state and the step at which the run has to stop.
"""
import bisect
import numpy as np


def key(p):
    """identity of a live point: its numbers, bit for bit"""
    return (tuple(p.values), p.logL, p.logP)


def logsub(a, b):
    return a + np.log(-np.expm1(b - a)) if b - a > -0.69 else a + np.log1p(-np.exp(b - a))


def volumes(nsteps, nrep, nlive):
    """log prior volumes assigned to the recorded sequence, and the log-likelihood index they belong to: nsteps steps of nrep points,
    then the final live points one by one"""
    v = [0.0]
    w = 0.0
    for _ in range(nsteps):
        w -= nrep / float(nlive)
        v.append(w)
    for i in range(nlive):
        w -= 1.0 / (nlive - i)
        v.append(w)
    return np.array(v)


def evidence(logls, logv):
    """trapezoidal log-evidence of a sequence that starts with zero likelihood at volume one, information from the rectangle weights"""
    l = np.concatenate(([-np.inf], np.asarray(logls, float)))
    dx = np.array([logsub(a, b) for a, b in zip(logv[:-1], logv[1:])])
    t = np.logaddexp(l[:-1], l[1:]) - np.log(2.0) + dx
    k = t.max()
    logz = k + np.log(np.sum(np.exp(t - k)))
    # rectangle weights
    r = l[1:] + dx
    kr = r.max()
    zr = kr + np.log(np.sum(np.exp(r - kr)))
    w = np.exp(r - zr)
    good = np.isfinite(l[1:])
    h = np.sum(w[good] * (l[1:][good] - zr))
    # the recursion of the code under test leaves out the first step's own contribution
    first = w[0] * (l[1] - zr) if np.isfinite(l[1]) else 0.0
    return logz, h, first, zr


class Fault(Exception):
    pass


class Reference:
    """one run. replies: LivePoints in the order received by the main process"""
    def __init__(self, replies, nlive, nrep):
        self.replies, self.N, self.n = list(replies), nlive, nrep
        self.pos = 0
        self.live, self.keys = [], []        # ordered by logL, later after equal
        self.recorded = []                   # points in discard order
        self.step_logl = []
        self.ranks = []                      # insertion ranks among the surviving live points
        self.admitted = []
        self.rejected = 0
        self.fill_skipped = 0
        self.steps = 0
        self.best = -np.inf
        self.rect_logz = -np.inf
        self.logx = 0.0
        self.snap = []                       # per step: (logZ, logX before, logX after)

    def more(self):
        return self.pos < len(self.replies)

    def take(self):
        if not self.more():
            raise Fault("the main process stopped asking in the middle of a step (%d replies)" % self.pos)
        p = self.replies[self.pos]
        self.pos += 1
        return p

    def fill(self):
        while len(self.live) < self.N:
            p = self.take()
            if p.logP > -np.inf and p.logL > -np.inf:
                self.insert(p)
                self.admitted.append(p)
            else:
                self.fill_skipped += 1

    def insert(self, p):
        i = bisect.bisect_right(self.keys, p.logL)
        self.keys.insert(i, p.logL)
        self.live.insert(i, p)
        return i

    def step(self):
        n = self.n
        out, thr = self.live[:n], self.keys[n - 1]
        del self.live[:n], self.keys[:n]
        self.recorded.extend(out)
        self.step_logl.append(thr)
        before = self.logx
        wt = thr + before + logsub(0.0, -n / float(self.N))
        self.rect_logz = np.logaddexp(self.rect_logz, wt)
        self.logx -= n / float(self.N)
        self.snap.append((self.rect_logz, before, self.logx))
        for _ in range(n):
            while True:
                p = self.take()
                if p.logL > thr:
                    break
                self.rejected += 1
            survivors = len(self.live)
            i = self.insert(p)
            self.ranks.append((i, survivors))
            self.admitted.append(p)
        self.steps += 1

    def run(self):
        self.fill()
        while self.more():
            self.step()
        return self

    def final_samples(self):
        return self.recorded + self.live

    def logl_sequence(self):
        """the likelihood the evidence uses per volume interval"""
        return self.step_logl + self.keys

    def expected(self):
        v = volumes(self.steps, self.n, self.N)
        return evidence(self.logl_sequence(), v) + (v,)


def dz(logz, best, logx):
    return float(np.logaddexp(logz, best + logx) - logz)
