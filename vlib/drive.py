"""A single sampler of the code under test, driven without any other process."""
import multiprocessing, random
from ctypes import c_double, c_int
import numpy as np


class Manager:
    """what a sampler needs of the run manager"""
    def __init__(self, interval=np.inf):
        self.logLmin = multiprocessing.Value(c_double, -np.inf)
        self.logLmax = multiprocessing.Value(c_double, -np.inf)
        self.checkpoint_flag = multiprocessing.Value(c_int, 0)
        self.periodic_checkpoint_interval = interval
        self.nthreads = 1
        self.consumer, self.producer = multiprocessing.Pipe(duplex=True)
        self.consumer_pipes, self.producer_pipes = [self.consumer], [self.producer]
        self.processes = []

    def connect_producer(self):
        return self.producer, 0


def sampler(kind, model, maxmcmc, poolsize, seed, proposal=None, folder="/nonexistent", verbose=0, **kw):
    from cpnest import sampler as S, proposal as P
    cls, default = dict(mhs=(S.MetropolisHastingsSampler, lambda: P.DefaultProposalCycle()),
                        hmc=(S.HamiltonianMonteCarloSampler, lambda: P.HamiltonianProposalCycle(model=model)),
                        sli=(S.SliceSampler, lambda: P.EnsembleSliceProposalCycle()))[kind]
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    m = Manager()
    s = cls(model, maxmcmc, seed=seed, output=folder, verbose=verbose, poolsize=poolsize, proposal=proposal or default(),
            resume_file=folder + "/sampler.pkl", manager=m, **kw)
    return s, m
