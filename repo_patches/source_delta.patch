From 20616f2106ee3494fdafa65928ad1d4b797e68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 01/34] fix: to_normalised read an undefined name and always
 failed

---
 cpnest/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/model.py b/cpnest/model.py
index e2ac12e..bf91f1c 100644
--- a/cpnest/model.py
+++ b/cpnest/model.py
@@ -156,4 +156,4 @@ class Model(object):
                 The values of the parameter mapped into the Ndim-cube
         """
         return array('d', [(v-b[0])/(b[1]-b[0]) for v, b
-                           in zip(value.values, self.bounds)])
+                           in zip(point.values, self.bounds)])
-- 
2.43.0


From 44a9f3aa54e1390b5d19f8407dc8b1e55568409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 02/34] fix: LivePoint scaling rounded the factor to single
 precision

---
 cpnest/parameter.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/parameter.pyx b/cpnest/parameter.pyx
index 1bfa767..cd42197 100644
--- a/cpnest/parameter.pyx
+++ b/cpnest/parameter.pyx
@@ -93,27 +93,27 @@ cdef class LivePoint:
             self.values[i]-=other.values[i]
         return self
 
-    def __mul__(LivePoint self, float other):
+    def __mul__(LivePoint self, double other):
         cdef LivePoint result=LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=other*self.values[i]
         return result
 
-    def __imul__(LivePoint self, float other):
+    def __imul__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]*=other
         return self
 
-    def __truediv__(LivePoint self, float other):
+    def __truediv__(LivePoint self, double other):
         cdef LivePoint result = LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=self.values[i]/other
         return result
 
-    def __itruediv__(LivePoint self, float other):
+    def __itruediv__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]/=other
-- 
2.43.0


From ca2506682b402c274951250d819f60615295f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 03/34] fix: LivePoint read past the end of a names list that
 shrank

---
 cpnest/parameter.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/parameter.pyx b/cpnest/parameter.pyx
index cd42197..65d6757 100644
--- a/cpnest/parameter.pyx
+++ b/cpnest/parameter.pyx
@@ -1,7 +1,7 @@
 # encoding: utf-8
 # cython: profile=False
 # cython: linetrace=False
-# cython: language_level=3, boundscheck=False, wraparound=False
+# cython: language_level=3, boundscheck=True, wraparound=False, nonecheck=True
 
 from __future__ import division
 from numpy.math cimport INFINITY
-- 
2.43.0


From f8c98199e2dc4ae9a0ea4e79f4ccfef7b8f9d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 04/34] fix: initialisation waited for replies it had not asked
 for

A point without likelihood was skipped without a new request, so that the
nested sampler could wait forever, and a NaN likelihood was accepted into the
live set, which it cannot be ordered in.
---
 cpnest/NestedSampling.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e068c98..13974e0 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -416,14 +416,17 @@ class NestedSampler(object):
                 for j in range(nthreads):
                     while i < self.Nlive:
                         acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
-                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                         if np.isnan(params[i].logL):
-                            self.logger.warn("Likelihood function returned NaN for params "+str(params))
-                            self.logger.warn("You may want to check your likelihood function")
-                        if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
+                            self.logger.warning("Likelihood function returned NaN for params "+str(params[i]))
+                            self.logger.warning("You may want to check your likelihood function")
+                        # also false for NaN, which cannot be ordered
+                        if params[i].logP > -np.inf and params[i].logL > -np.inf:
+                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                             i+=1
                             pbar.update()
                             break
+                        # the point is unusable: ask the same sampler for another one
+                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
         self.params = OrderedLivePoints(params)
         if self.verbose:
             sys.stderr.write("\n")
-- 
2.43.0


From 4f408e13bddacdb4835f6da0adb172fd1883c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 05/34] fix: samplers recorded unevaluated points in their
 chains

The points sent to fill the live set carry neither likelihood nor prior, and
a sampler that did not move one recorded it with both at minus infinity.
---
 cpnest/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 382ab02..7ce54e0 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -240,6 +240,11 @@ class Sampler(object):
                     self.checkpoint()
                     sys.exit(130)
 
+                # points drawn from the prior to fill the live set are not evaluated yet
+                if p.logP == -np.inf:
+                    p.logP = self.model.log_prior(p)
+                    p.logL = self.model.log_likelihood(p)
+
                 self.evolution_points.append(p)
                 (Nmcmc, outParam) = next(self.yield_sample(self.logLmin.value))
                 # Send the sample to the Nested Sampler
-- 
2.43.0


From da7ad5980cf53b2fc1942696b31937a3f4ac2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 06/34] fix: Hamiltonian samplers could not be checkpointed

Their proposals held a generator, which cannot be pickled, and the
unconstrained LeapFrog could not be constructed for want of it.
---
 cpnest/proposal.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index fdcc3fe..75353d7 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -399,7 +399,7 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.TARGET         = 0.500
         self.ADAPTATIONSIZE = 0.001
         self._initialised   = False
-        self.c              = self.counter()
+        self.c              = 0 # number of trajectories saved
         self.DEBUG          = 0
 
     def set_ensemble(self, ensemble):
@@ -705,12 +705,6 @@ class ConstrainedLeapFrog(LeapFrog):
         """
         return super(ConstrainedLeapFrog,self).get_sample(q0, logLmin)
 
-    def counter(self):
-        n = 0
-        while True:
-            yield n
-            n += 1
-
     def evolve_trajectory_one_step_position(self, p, q):
         """
         One leap frog step in position
@@ -848,7 +842,8 @@ class ConstrainedLeapFrog(LeapFrog):
         save trajectory for diagnostic purposes
         """
         if filename is None:
-            filename = 'trajectory_'+str(next(self.c))+'.txt'
+            filename = 'trajectory_'+str(self.c)+'.txt'
+            self.c  += 1
         f = open(filename,'w')
         names = trajectory[0][0].names
 
@@ -863,4 +858,3 @@ class ConstrainedLeapFrog(LeapFrog):
                 f.write(repr(q[n])+'\t'+repr(p[j])+'\t')
             f.write(repr(q.logP)+'\t'+repr(q.logL)+'\t'+repr(logLmin)+'\n')
         f.close()
-        if self.c == 3: exit()
-- 
2.43.0


From 177ce5dc589e4d18a542f9f4c6aadc476f249b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 07/34] fix: samplers of different kinds shared a resume file

Slice and Hamiltonian samplers were numbered from zero again, so that they
overwrote the checkpoints of the Metropolis-Hastings samplers and resumed
from each other's.
---
 cpnest/cpnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 29fa9d5..5fcc20e 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -219,7 +219,7 @@ class CPNest(object):
 
             for i in range(nhamiltonian):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(i))
+                                           "sampler_{0:d}.pkl".format(nmhs+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = HamiltonianMonteCarloSampler(
                         self.user,
@@ -241,7 +241,8 @@ class CPNest(object):
                 self.process_pool.append(p)
 
             for i in range(nslice):
-                resume_file = os.path.join(output, "sampler_{0:d}.pkl".format(i))
+                resume_file = os.path.join(output,
+                                           "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = SliceSampler(self.user,
                                     maxmcmc,
-- 
2.43.0


From 6e0148233b37e6a484e27ebc899e8597deaad5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 08/34] fix: a crash while writing a checkpoint destroyed the
 previous one

---
 cpnest/NestedSampling.py |  4 ++--
 cpnest/sampler.py        |  4 ++--
 cpnest/utils.py          | 22 ++++++++++++++++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 13974e0..e8150f9 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -17,6 +17,7 @@ from . import nest2pos
 from .nest2pos import logsubexp
 from operator import attrgetter
 from .cpnest import CheckPoint
+from .utils import dump_atomically
 
 
 logger = logging.getLogger('cpnest.NestedSampling')
@@ -497,8 +498,7 @@ class NestedSampler(object):
         Checkpoint its internal state
         """
         self.logger.critical('Checkpointing nested sampling')
-        with open(self.resume_file,"wb") as f:
-            pickle.dump(self, f)
+        dump_atomically(self, self.resume_file)
 
     @classmethod
     def resume(cls, filename, manager, usermodel):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 7ce54e0..fad21f8 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -17,6 +17,7 @@ from operator import attrgetter
 import numpy.lib.recfunctions as rfn
 import array
 from .nest2pos import acl
+from .utils import dump_atomically
 
 import pickle
 __checkpoint_flag = False
@@ -278,8 +279,7 @@ class Sampler(object):
         Checkpoint its internal state
         """
         self.logger.info('Checkpointing Sampler')
-        with open(self.resume_file, "wb") as f:
-            pickle.dump(self, f)
+        dump_atomically(self, self.resume_file)
 
     @classmethod
     def resume(cls, resume_file, manager, model):
diff --git a/cpnest/utils.py b/cpnest/utils.py
index cb3dc1d..d797f78 100644
--- a/cpnest/utils.py
+++ b/cpnest/utils.py
@@ -1,5 +1,6 @@
 import os
 import logging
+import pickle
 
 # Default formats and level names
 FORMATTER = logging.Formatter(
@@ -10,6 +11,27 @@ LEVELS = ['CRITICAL', 'WARNING', 'INFO', 'DEBUG']
 LOGGER = logging.getLogger('cpnest.utils')
 
 
+def dump_atomically(obj, filename):
+    """
+    Pickle an object to a file, which keeps its previous content
+    until the new one is complete.
+
+    Parameters
+    ----------
+    obj : object
+        Object to pickle.
+
+    filename : str
+        File to write.
+    """
+    tmp = filename + '.tmp'
+    with open(tmp, 'wb') as f:
+        pickle.dump(obj, f)
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace(tmp, filename)
+
+
 class _Handler(logging.Handler):
 
     def __init__(self, verbose=0, **kwargs):
-- 
2.43.0


From 91d55a556c8221c6ee5efd86e2023ea472e8b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 09/34] fix: resumed samplers all drew from the same random
 stream

They inherited the state of the main process instead of seeding their own.
---
 cpnest/sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index fad21f8..77112af 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -102,6 +102,7 @@ class Sampler(object):
         self.mcmc_accepted      = 0
         self.mcmc_counter       = 0
         self.initialised        = False
+        self.random_state       = None
         self.output             = output
         self.sample_prior       = sample_prior
         self.samples            = deque(maxlen = None if self.verbose >=3 else 5*self.maxmcmc) # the list of samples from the mcmc chain
@@ -213,6 +214,9 @@ class Sampler(object):
         """
         if not self.initialised:
             self.reset()
+        elif self.random_state is not None:
+            # resumed: every sampler would share the state of the main process
+            np.random.set_state(self.random_state)
 
         self.counter=1
         __checkpoint_flag=False
@@ -301,6 +305,7 @@ class Sampler(object):
 
     def __getstate__(self):
         state = self.__dict__.copy()
+        state['random_state'] = np.random.get_state()
         # Remove the unpicklable entries.
         del state['model']
         del state['logLmin']
@@ -313,6 +318,7 @@ class Sampler(object):
 
     def __setstate__(self, state):
         self.__dict__ = state
+        self.__dict__.setdefault('random_state', None)
         self.manager = None
 
 class MetropolisHastingsSampler(Sampler):
-- 
2.43.0


From 6138dd055ec01fb57b03d2d1442f8eb8705ff05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 10/34] fix: concurrent samplers could lower the best
 likelihood seen

The maximum was read and written back without holding the lock, and the
Hamiltonian sampler wrote back one it had read before its whole move.
---
 cpnest/sampler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 77112af..dac1c84 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -199,6 +199,13 @@ class Sampler(object):
             self.Nmcmc = safety
         return self.Nmcmc
 
+    def update_logLmax(self, logL):
+        """
+        Raise the best likelihood shared by all samplers to logL
+        """
+        with self.logLmax.get_lock():
+            self.logLmax.value = max(self.logLmax.value, logL)
+
     def produce_sample(self):
         try:
             self._produce_sample()
@@ -344,7 +351,7 @@ class MetropolisHastingsSampler(Sampler):
                 if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                     newparam.logL = self.model.log_likelihood(newparam)
                     if newparam.logL > logLmin:
-                        self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                        self.update_logLmax(newparam.logL)
                         oldparam = newparam.copy()
                         logp_old = newparam.logP
                         sub_accepted+=1
@@ -371,8 +378,6 @@ class HamiltonianMonteCarloSampler(Sampler):
     """
     def yield_sample(self, logLmin):
 
-        global_lmax = self.logLmax.value
-
         while True:
 
             sub_accepted    = 0
@@ -387,7 +392,7 @@ class HamiltonianMonteCarloSampler(Sampler):
                 if self.proposal.log_J > np.log(random()):
 
                     if newparam.logL > logLmin:
-                        global_lmax = max(global_lmax, newparam.logL)
+                        self.update_logLmax(newparam.logL)
                         oldparam        = newparam.copy()
                         sub_accepted   += 1
 
@@ -399,7 +404,6 @@ class HamiltonianMonteCarloSampler(Sampler):
             self.mcmc_accepted += sub_accepted
             self.mcmc_counter  += sub_counter
             self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)
-            self.logLmax.value = global_lmax
 
             for p in self.proposal.proposals:
                 p.update_time_step(self.acceptance)
@@ -543,7 +547,7 @@ class SliceSampler(Sampler):
                         # compute the new value of logL
                         newparam.logL = self.model.log_likelihood(newparam)
                         if newparam.logL > Y:
-                            self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                            self.update_logLmax(newparam.logL)
                             oldparam     = newparam.copy()
                             sub_accepted += 1
                             break
-- 
2.43.0


From 9b2aa0e0162820847f2da33f6c0b45250f26769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 11/34] fix: points accepted without a move were missing from
 the best likelihood

---
 cpnest/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index dac1c84..8a74e61 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -125,6 +125,7 @@ class Sampler(object):
             if p.logL is None or not np.isfinite(p.logL):
                 self.logger.warning("Received non-finite logL value {0} with parameters {1}".format(str(p.logL), str(p)))
                 self.logger.warning("You may want to check your likelihood function to improve sampling")
+            self.update_logLmax(p.logL)
             self.evolution_points.append(p)
 
         self.proposal.set_ensemble(self.evolution_points)
@@ -256,6 +257,7 @@ class Sampler(object):
                 if p.logP == -np.inf:
                     p.logP = self.model.log_prior(p)
                     p.logL = self.model.log_likelihood(p)
+                    self.update_logLmax(p.logL)
 
                 self.evolution_points.append(p)
                 (Nmcmc, outParam) = next(self.yield_sample(self.logLmin.value))
-- 
2.43.0


From a4051f9ab1d010952590c547fc0f8d509947f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 12/34] fix: an interruption during a step duplicated or lost
 samples

The step was checkpointed half done and repeated on resuming: its points were
recorded twice, the volume shrunk twice and the live set grew.
---
 cpnest/NestedSampling.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e8150f9..51d0421 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -319,7 +319,42 @@ class NestedSampler(object):
     def consume_sample(self):
         """
         consumes a sample from the consumer_pipes
-        and updates the evidence logZ
+        and updates the evidence logZ. An interruption
+        undoes the whole step, which is then repeated
+        when the run is resumed
+        """
+        start = self.mark_step()
+        try:
+            self.replace_worst_points()
+        except CheckPoint:
+            self.undo_step(start)
+            raise
+
+    def mark_step(self):
+        """
+        Record all that a nested sampling step changes
+        """
+        lists = [(l, len(l)) for l in (self.nested_samples, self.insertion_indices,
+                                       self.state.logLs, self.state.log_vols)]
+        return (self.__dict__.copy(), self.state.__dict__.copy(), lists,
+                list(self.params), list(self.params._keys))
+
+    def undo_step(self, start):
+        """
+        Go back to the state at the call of :obj:`mark_step`
+        """
+        attributes, state, lists, params, keys = start
+        self.__dict__.update(attributes)
+        self.state.__dict__.update(state)
+        for l, n in lists:
+            del l[n:]
+        self.params[:] = params
+        self.params._keys[:] = keys
+
+    def replace_worst_points(self):
+        """
+        Record the worst live points, one per sampler,
+        and replace them by what the samplers return
         """
         # Increment the state of the evidence integration
         nreplace = len(self.manager.consumer_pipes)
-- 
2.43.0


From c59168d7583378e2b69fb8e7712882f231246634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 13/34] fix: a signal outside the sampling loop left the
 samplers running

The shared checkpoint flag was replaced instead of set, so that samplers never
saw it and the exiting run waited for them forever; signals while the samplers
were started were not handled at all, and a second signal interrupted the
writing of the checkpoint.
---
 cpnest/cpnest.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 5fcc20e..539c196 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -24,9 +24,16 @@ class CheckPoint(Exception):
     pass
 
 
-def sighandler(signal, frame):
-    # print("Handling signal {}".format(signal))
-    LOGGER.critical("Handling signal {}".format(signal))
+SIGNALS = [signal.SIGTERM, signal.SIGALRM, signal.SIGQUIT,
+           signal.SIGINT, signal.SIGUSR1, signal.SIGUSR2]
+
+
+def sighandler(signum, frame):
+    # print("Handling signal {}".format(signum))
+    # the first signal ends the run, others must not interrupt checkpointing
+    for s in SIGNALS:
+        signal.signal(s, signal.SIG_IGN)
+    LOGGER.critical("Handling signal {}".format(signum))
     raise CheckPoint()
 
 
@@ -269,24 +276,27 @@ class CPNest(object):
         with self.log_file:
             # Everything in this context is logged to `log_file`
 
-            if self.resume:
-                signal.signal(signal.SIGTERM, sighandler)
-                signal.signal(signal.SIGALRM, sighandler)
-                signal.signal(signal.SIGQUIT, sighandler)
-                signal.signal(signal.SIGINT, sighandler)
-                signal.signal(signal.SIGUSR1, sighandler)
-                signal.signal(signal.SIGUSR2, sighandler)
-
-            #self.p_ns.start()
-            for each in self.process_pool:
-                each.start()
+            handlers = {}
             try:
+                if self.resume:
+                    for s in SIGNALS:
+                        handlers[s] = signal.signal(s, sighandler)
+
+                #self.p_ns.start()
+                for each in self.process_pool:
+                    each.start()
                 self.NS.nested_sampling_loop()
                 for each in self.process_pool:
                     each.join()
             except CheckPoint:
                 self.checkpoint()
                 sys.exit(130)
+            finally:
+                for each in self.process_pool:
+                    if each.pid is not None:
+                        each.join()
+                for s, handler in handlers.items():
+                    signal.signal(s, handler)
 
             if self.verbose >= 2:
                 self.NS.check_insertion_indices(rolling=False,
@@ -548,7 +558,7 @@ class CPNest(object):
             each.start()
 
     def checkpoint(self):
-        self.manager.checkpoint_flag=1
+        self.manager.checkpoint_flag.value = 1
 
 
 class RunManager(SyncManager):
-- 
2.43.0


From 5df937c12f82b24aecd85679cdeadabb5c292b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 14/34] fix: a run hung when a sampler died, and samplers
 outlived a killed run

The nested sampler waited forever for the reply of a process that had ended, a
failed run waited for its samplers, and samplers of a main process that was
killed kept sampling.
---
 cpnest/NestedSampling.py |  4 ++--
 cpnest/cpnest.py         | 33 +++++++++++++++++++++++++++++++++
 cpnest/sampler.py        |  7 +++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 51d0421..80137ac 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -375,7 +375,7 @@ class NestedSampler(object):
             loops           = 0
             while(True):
                 loops += 1
-                acceptance, sub_acceptance, self.jumps, proposed = self.manager.consumer_pipes[self.queue_counter].recv()
+                acceptance, sub_acceptance, self.jumps, proposed = self.manager.receive(self.queue_counter)
                 if proposed.logL > self.logLmin.value:
                     # Insert the new live point into the ordered list and
                     # return the index at which is was inserted, this will
@@ -451,7 +451,7 @@ class NestedSampler(object):
                 for j in range(nthreads): self.manager.consumer_pipes[j].send(self.model.new_point())
                 for j in range(nthreads):
                     while i < self.Nlive:
-                        acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
+                        acceptance,sub_acceptance,self.jumps,params[i] = self.manager.receive(self.queue_counter)
                         if np.isnan(params[i].logL):
                             self.logger.warning("Likelihood function returned NaN for params "+str(params[i]))
                             self.logger.warning("You may want to check your likelihood function")
diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 539c196..a9e60fd 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -268,6 +268,8 @@ class CPNest(object):
                 p = mp.Process(target=sampler.produce_sample)
                 self.process_pool.append(p)
 
+            self.manager.processes = self.process_pool
+
     def run(self):
         """
         Run the sampler
@@ -291,6 +293,12 @@ class CPNest(object):
             except CheckPoint:
                 self.checkpoint()
                 sys.exit(130)
+            except SystemExit:
+                # the samplers have been told to checkpoint
+                raise
+            except BaseException:
+                self.terminate()
+                raise
             finally:
                 for each in self.process_pool:
                     if each.pid is not None:
@@ -560,6 +568,18 @@ class CPNest(object):
     def checkpoint(self):
         self.manager.checkpoint_flag.value = 1
 
+    def terminate(self, timeout=10):
+        """
+        End the samplers of a failed run
+        """
+        running = [each for each in self.process_pool if each.pid is not None]
+        for each in running:
+            each.terminate()
+        for each in running:
+            each.join(timeout)
+            if each.is_alive():
+                each.kill()
+
 
 class RunManager(SyncManager):
     def __init__(self, nthreads=None, **kwargs):
@@ -577,6 +597,7 @@ class RunManager(SyncManager):
         self.logLmin = None
         self.logLmax = None
         self.nthreads=nthreads
+        self.processes = list()
 
     def start(self):
         super(RunManager, self).start()
@@ -593,3 +614,15 @@ class RunManager(SyncManager):
             pipe = self.producer_pipes[n]
             self.nconnected.value+=1
         return pipe, n
+
+    def receive(self, i):
+        """
+        Returns the next result of the i-th sampler, which
+        is waited for as long as all samplers are running
+        """
+        pipe = self.consumer_pipes[i]
+        while not pipe.poll(1.0):
+            for n, p in enumerate(self.processes):
+                if not p.is_alive() and not pipe.poll():
+                    raise RuntimeError("Sampler {0:d} ended unexpectedly, exit code {1}".format(n, p.exitcode))
+        return pipe.recv()
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 8a74e61..f1f3f8c 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -220,6 +220,8 @@ class Sampler(object):
         evolves it. Proposed sample is then sent back
         to :obj:`cpnest.NestedSampler`.
         """
+        parent = os.getppid()
+
         if not self.initialised:
             self.reset()
         elif self.random_state is not None:
@@ -230,6 +232,11 @@ class Sampler(object):
         __checkpoint_flag=False
         while True:
 
+            # nobody will ever ask for another sample
+            if os.getppid() != parent:
+                self.logger.critical("Sampler process {0!s}: main process died".format(os.getpid()))
+                sys.exit(1)
+
             if self.manager.checkpoint_flag.value:
                 self.checkpoint()
                 sys.exit(130)
-- 
2.43.0


From 8d030826f5c582a86b2e44f334f126aced0740cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 15/34] fix: drawing N posterior samples failed or ignored the
 weights' scale

The cumulative weights were compared with a uniform number as if they summed to
exactly one, and runs contributing different numbers of samples could not be
combined.
---
 cpnest/nest2pos.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 30f3a54..be234f7 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -1,6 +1,6 @@
 import logging
 import numpy as np
-from numpy import logaddexp, vstack
+from numpy import logaddexp
 from numpy.random import uniform
 from functools import reduce
 from scipy.stats import pearsonr
@@ -115,14 +115,15 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     Draw N samples from the input data, weighted by log_wt.
     For large N there may be repeated samples
     """
-    if(N==0): return []
+    if(N==0): return data[:0]
     log_cumsums=np.zeros(log_wts.shape[0]+1)
     log_cumsums[0]=-float('inf')
     for i,log_wt in enumerate(log_wts):
         log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)
 
-    us=np.log(uniform(size=N))
-    idxs=np.digitize(us, log_cumsums)
+    # the weights need not be normalised, and rounding leaves their sum short of one
+    us=np.log(uniform(size=N)) + log_cumsums[-1]
+    idxs=np.digitize(us, log_cumsums[:-1])
 
     return data[idxs-1]
 
@@ -139,7 +140,7 @@ def draw_N_posterior_many(datas, Nlives, Npost, verbose=False):
     log_total_evidence=reduce(logaddexp, log_evs)
     Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
     posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
-    return vstack(posts).flatten()
+    return np.concatenate(posts, axis=None)
 
 def resample_mcmc_chain(chain, verbose=False, burnin=False):
     """
-- 
2.43.0


From 1d947480c28185c004f05d8fd47757f69cbb0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 16/34] fix: resampling a chain shuffled the caller's array and
 failed with burn-in

---
 cpnest/nest2pos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index be234f7..f690dc8 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -148,7 +148,7 @@ def resample_mcmc_chain(chain, verbose=False, burnin=False):
     each one of them against the Metropolis-Hastings rule
     """
     LOGGER.critical('Number of input samples: {0!s}'.format(chain.shape[0]))
-    if burnin: chain = chain[chain.shape[0]/2-1:]
+    if burnin: chain = chain[chain.shape[0]//2:]
     # thin according to the autocorrelation length
     ACL = []
     for n in chain.dtype.names:
@@ -158,7 +158,7 @@ def resample_mcmc_chain(chain, verbose=False, burnin=False):
 
     LOGGER.critical('Measured autocorrelation length {0!s}'.format(str(ACL)))
     # thin and shuffle the chain
-    chain = chain[::ACL]
+    chain = chain[::ACL].copy()
     np.random.shuffle(chain)
     # compute the normalised log posterior density
     logpost = chain['logL']+chain['logPrior']
-- 
2.43.0


From cdbd2dba70cadd72cc4dcf023b04f0bb877aed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 17/34] fix: plots failed for few samples and for points of
 zero likelihood

---
 cpnest/plot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cpnest/plot.py b/cpnest/plot.py
index 2b5ac7c..6e26e55 100644
--- a/cpnest/plot.py
+++ b/cpnest/plot.py
@@ -1,4 +1,5 @@
 import matplotlib as mpl
+import numpy as np
 from matplotlib import pyplot as plt
 
 def init_plotting():
@@ -51,16 +52,22 @@ def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None
     """
     Produce a histogram
     """
+    bins = max(1, len(x)//50)
+    # points of zero likelihood cannot be shown
+    x, prior_samples, mcmc_samples = [
+        s[np.isfinite(s)] if s is not None else None
+        for s in (np.asarray(x), prior_samples, mcmc_samples)
+    ]
     fig = plt.figure()
     ax  = fig.add_subplot(111)
     ax.hist(x, density = True, color='black', linewidth = 1.25,
-                histtype='step', bins=len(x)//50, label = 'posterior')
+                histtype='step', bins=bins, label = 'posterior')
     if prior_samples is not None:
         ax.hist(prior_samples, density = True, color='green', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'prior')
+                histtype='step', bins=bins, label = 'prior')
     if mcmc_samples is not None:
         ax.hist(mcmc_samples, density = True, color='red', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'mcmc')
+                histtype='step', bins=bins, label = 'mcmc')
     ax.legend(loc='upper left')
     ax.set_ylabel('probability density')
     if name is not None:
@@ -90,7 +97,7 @@ def plot_indices(indices, filename=None, max_bins=30):
     ax  = fig.add_subplot(111)
 
     ax.hist(indices, density=True, color='tab:blue', linewidth=1.25,
-                histtype='step', bins=min(len(indices) // 100, max_bins))
+                histtype='step', bins=max(1, min(len(indices) // 100, max_bins)))
     # Theoretical distribution
     ax.axhline(1, color='black', linewidth=1.25, linestyle=':', label='pdf')
 
-- 
2.43.0


From 6cccb196f66eab05d9c51b9ecb44369d19c53764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 18/34] fix: prior and MCMC samples of verbose runs were lost

At verbose 3 they were read, written and deleted while the posterior samples
were computed, after which the run found no files and returned None.
---
 cpnest/cpnest.py | 56 ++++++++++--------------------------------------
 1 file changed, 11 insertions(+), 45 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index a9e60fd..5089942 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -170,6 +170,8 @@ class CPNest(object):
             self.nlive    = nlive
             self.poolsize = poolsize
             self.posterior_samples = None
+            self.prior_samples = {n:None for n in usermodel.names}
+            self.mcmc_samples  = {n:None for n in usermodel.names}
             self.prior_sampling = prior_sampling
             self.manager = RunManager(
                 nthreads=self.nthreads,
@@ -326,9 +328,10 @@ class CPNest(object):
                 )
 
             if self.verbose>=3 or self.NS.prior_sampling:
-                self.prior_samples = self.get_prior_samples(filename=None)
+                self.prior_samples = self.get_prior_samples(
+                    filename='prior.dat' if self.verbose>=3 else None)
             if self.verbose>=3 and not self.NS.prior_sampling:
-                self.mcmc_samples = self.get_mcmc_samples(filename=None)
+                self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')
             if self.verbose>=2:
                 self.plot(corner = False)
 
@@ -378,43 +381,6 @@ class CPNest(object):
         nested_samples     = self.get_nested_samples()
         posterior_samples  = draw_posterior_many([nested_samples],[self.nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
-        self.prior_samples = {n:None for n in self.user.names}
-        self.mcmc_samples  = {n:None for n in self.user.names}
-        # if we run with full verbose, read in and output
-        # the mcmc thinned posterior samples
-        if self.verbose >= 3:
-            from .nest2pos import resample_mcmc_chain
-            from numpy.lib.recfunctions import stack_arrays
-
-            prior_samples = []
-            mcmc_samples  = []
-            for file in os.listdir(self.NS.output_folder):
-                if 'prior_samples' in file:
-                    prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
-                elif 'mcmc_chain' in file:
-                    mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
-
-            # first deal with the prior samples
-            if len(prior_samples)>0:
-                self.prior_samples = stack_arrays([p for p in prior_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'prior.dat'),
-                           self.prior_samples.ravel(),
-                           header=' '.join(self.prior_samples.dtype.names),
-                           newline='\n',delimiter=' ')
-            # now stack all the mcmc chains
-            if len(mcmc_samples)>0:
-                self.mcmc_samples = stack_arrays([p for p in mcmc_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'mcmc.dat'),
-                           self.mcmc_samples.ravel(),
-                           header=' '.join(self.mcmc_samples.dtype.names),
-                           newline='\n',delimiter=' ')
-
         # TODO: Replace with something to output samples in whatever format
         if filename:
             np.savetxt(os.path.join(
@@ -457,12 +423,12 @@ class CPNest(object):
             self.logger.critical('ERROR, no prior samples found!')
             return None
 
-        prior_samples = stack_arrays([p for p in prior_samples])
+        prior_samples = stack_arrays([p for p in prior_samples], usemask=False)
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.prior_samples.ravel(),
-                       header=' '.join(self.prior_samples.dtype.names),
+                       prior_samples.ravel(),
+                       header=' '.join(prior_samples.dtype.names),
                        newline='\n',delimiter=' ')
 
         return prior_samples
@@ -496,12 +462,12 @@ class CPNest(object):
             return None
 
         # now stack all the mcmc chains
-        mcmc_samples = stack_arrays([p for p in mcmc_samples])
+        mcmc_samples = stack_arrays([p for p in mcmc_samples], usemask=False)
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.mcmc_samples.ravel(),
-                       header=' '.join(self.mcmc_samples.dtype.names),
+                       mcmc_samples.ravel(),
+                       header=' '.join(mcmc_samples.dtype.names),
                        newline='\n',delimiter=' ')
         return mcmc_samples
 
-- 
2.43.0


From 4b2fc56ee6b4b9a1b7d79793fea68f24ffdd3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 19/34] fix: sampler chains were removed through a shell and by
 a partial name

An output folder with a space or a shell metacharacter made rm act elsewhere,
any file with prior_samples or mcmc_chain in its name was deleted, and
parameter names that are no identifiers were changed on reading.
---
 cpnest/cpnest.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 5089942..75389ac 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -5,6 +5,7 @@ import multiprocessing as mp
 from ctypes import c_double, c_int
 import numpy as np
 import os
+import re
 import sys
 import signal
 import logging
@@ -390,6 +391,30 @@ class CPNest(object):
                 newline='\n',delimiter=' ')
         return posterior_samples
 
+    def collect_chains(self, name):
+        """
+        Read and remove the chains that the samplers saved
+
+        Parameters
+        ----------
+        name : string
+               what the files are called, before the process id
+
+        Returns
+        -------
+        chains : list of :obj:`numpy.ndarray`
+        """
+        import numpy as np
+
+        dtype  = [(n, 'f8') for n in list(self.user.names)+['logL','logPrior']]
+        chains = []
+        for file in sorted(os.listdir(self.NS.output_folder)):
+            if re.fullmatch(name+r'_\d+\.dat', file):
+                path = os.path.join(self.NS.output_folder, file)
+                chains.append(np.loadtxt(path, dtype=dtype, ndmin=1))
+                os.remove(path)
+        return chains
+
     def get_prior_samples(self, filename='prior.dat'):
         """
         Returns prior samples
@@ -404,16 +429,11 @@ class CPNest(object):
         pos : :obj:`numpy.ndarray`
         """
         import numpy as np
-        import os
 
         from numpy.lib.recfunctions import stack_arrays
 
         # read in the samples from the prior coming from each sampler
-        prior_samples = []
-        for file in os.listdir(self.NS.output_folder):
-            if 'prior_samples' in file:
-                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+        prior_samples = self.collect_chains('prior_samples')
 
         # if we sampled the prior, the nested samples are samples from the prior
         if self.NS.prior_sampling:
@@ -451,11 +471,7 @@ class CPNest(object):
         from .nest2pos import resample_mcmc_chain
         from numpy.lib.recfunctions import stack_arrays
 
-        mcmc_samples  = []
-        for file in os.listdir(self.NS.output_folder):
-            if 'mcmc_chain' in file:
-                mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+        mcmc_samples  = [resample_mcmc_chain(c) for c in self.collect_chains('mcmc_chain')]
 
         if not mcmc_samples:
             self.logger.critical('ERROR, no MCMC samples found!')
-- 
2.43.0


From f765afda5e72081aa4e7e69bac79790eb8f84eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 20/34] fix: a slash in a parameter name put plots outside the
 output folder

---
 cpnest/cpnest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 75389ac..ab23c96 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -507,9 +507,9 @@ class CPNest(object):
                 plot.plot_hist(pos[n].ravel(), name = n,
                                prior_samples = self.prior_samples[n].ravel() if pri is not None else None,
                                mcmc_samples = self.mcmc_samples[n].ravel() if mc is not None else None,
-                               filename = os.path.join(self.output,'posterior_{0}.pdf'.format(n)))
+                               filename = os.path.join(self.output,'posterior_{0}.pdf'.format(n.replace(os.sep,'_'))))
         for n in self.nested_samples.dtype.names:
-            plot.plot_chain(self.nested_samples[n],name=n,filename=os.path.join(self.output,'nschain_{0}.pdf'.format(n)))
+            plot.plot_chain(self.nested_samples[n],name=n,filename=os.path.join(self.output,'nschain_{0}.pdf'.format(n.replace(os.sep,'_'))))
         if self.NS.prior_sampling is False:
             import numpy as np
             plotting_posteriors = np.squeeze(pos.view((pos.dtype[0], len(pos.dtype.names))))
-- 
2.43.0


From 63d6311ff3671af173d9c4ed7d7cef8880262adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 21/34] fix: slice samplers did not save their prior chain when
 sampling the prior

---
 cpnest/cpnest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index ab23c96..866c942 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -262,6 +262,7 @@ class CPNest(object):
                                     seed        = self.seed+nmhs+nhamiltonian+i,
                                     proposal    = proposals['sli'](),
                                     resume_file = resume_file,
+                                    sample_prior = prior_sampling,
                                     manager     = self.manager
                                     )
                 else:
-- 
2.43.0


From eb5c242e8585e19e52f7d7963e5534e498b1931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 22/34] fix: a Hamiltonian sampler could sample forever after
 the end of the run

The end of the run is signalled by an infinite threshold, which was read a
second time after it had been checked.
---
 cpnest/sampler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index f1f3f8c..19faca3 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -267,13 +267,20 @@ class Sampler(object):
                     self.update_logLmax(p.logL)
 
                 self.evolution_points.append(p)
-                (Nmcmc, outParam) = next(self.yield_sample(self.logLmin.value))
+                # checked again, there is nothing above an infinite threshold to sample
+                logLmin = self.logLmin.value
+                if logLmin == np.inf:
+                    break
+                (Nmcmc, outParam) = next(self.yield_sample(logLmin))
                 # Send the sample to the Nested Sampler
                 self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))
 
             # otherwise, keep on sampling from the previous boundary
             else:
-                _, _ = next(self.yield_sample(self.logLmin.value))
+                logLmin = self.logLmin.value
+                if logLmin == np.inf:
+                    break
+                _, _ = next(self.yield_sample(logLmin))
             # Update the ensemble every now and again
             if (self.counter%(self.poolsize//4))==0:
                 self.proposal.set_ensemble(self.evolution_points)
-- 
2.43.0


From f061c57ceb7f610f07790889d7aecaf869f2ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 23/34] fix: the information was wrong for log-likelihoods of
 large magnitude

---
 cpnest/NestedSampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 80137ac..8bc876d 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -124,7 +124,7 @@ class _NSintegralState(object):
         self.logZ = logaddexp(self.logZ,Wt)
         # Update information estimate
         if np.isfinite(oldZ) and np.isfinite(self.logZ) and np.isfinite(logL):
-            self.info = np.exp(Wt - self.logZ)*logL + np.exp(oldZ - self.logZ)*(self.info + oldZ) - self.logZ
+            self.info = np.exp(Wt - self.logZ)*(logL - self.logZ) + np.exp(oldZ - self.logZ)*(self.info + oldZ - self.logZ)
             if isnan(self.info):
                 self.info = 0
 
-- 
2.43.0


From 07f4657997034f68f14dc723306248b89190a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 24/34] fix: the initial chain length was zero for maxmcmc < 10

---
 cpnest/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 19faca3..439a639 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -78,7 +78,7 @@ class Sampler(object):
 
         self.seed = seed
         self.model = model
-        self.initial_mcmc = maxmcmc//10
+        self.initial_mcmc = max(1, maxmcmc//10)
         self.maxmcmc = maxmcmc
         self.resume_file = resume_file
         self.manager = manager
-- 
2.43.0


From da42c6b664af2f7b5393033114d03b99f38203a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 25/34] fix: a resumed run forgot the best likelihoods accepted
 after the integrator was saved

---
 cpnest/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 439a639..5898442 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -324,6 +324,9 @@ class Sampler(object):
         obj.producer_pipe , obj.thread_id = obj.manager.connect_producer()
         obj.logger.info('Resuming Sampler from ' + resume_file)
         obj.last_checkpoint_time = time.time()
+        # the nested sampler may have been saved before these were accepted
+        for p in list(obj.evolution_points) + list(obj.samples):
+            obj.update_logLmax(p.logL)
         return obj
 
     def __getstate__(self):
-- 
2.43.0


From 369ce37a2d4962385858c3043efbcdac88a2a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 26/34] fix: Hamiltonian samplers could only be checkpointed
 with a picklable model and resumed with a copy of it

Unlike the other samplers' the checkpoint contained the user's model,
through its functions held by the proposals.
---
 cpnest/proposal.py | 24 +++++++++++++++++++++++-
 cpnest/sampler.py  |  7 +++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 75353d7..e3e0505 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -389,7 +389,7 @@ class HamiltonianProposal(EnsembleEigenVector):
         """
         super(HamiltonianProposal, self).__init__(**kwargs)
         self.T              = self.kinetic_energy
-        self.V              = model.potential
+        self.set_model(model)
         self.normal         = None
         self.dt             = 0.3
         self.base_dt        = 0.3
@@ -402,6 +402,22 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.c              = 0 # number of trajectories saved
         self.DEBUG          = 0
 
+    def set_model(self, model):
+        """
+        Set the :obj:`cpnest.Model` whose functions are used
+        """
+        self.V              = model.potential
+
+    def __getstate__(self):
+        """
+        Leave out the functions of the model, which is not part of
+        a checkpoint and might not be picklable
+        """
+        state = self.__dict__.copy()
+        for name in ('V', 'dV', 'log_likelihood'):
+            state.pop(name, None)
+        return state
+
     def set_ensemble(self, ensemble):
         """
         override the set ensemble method
@@ -599,6 +615,9 @@ class LeapFrog(HamiltonianProposal):
         model : :obj:`cpnest.Model`
         """
         super(LeapFrog, self).__init__(model=model, **kwargs)
+
+    def set_model(self, model):
+        super(LeapFrog, self).set_model(model)
         self.dV             = model.force
         self.prior_bounds   = model.bounds
 
@@ -685,6 +704,9 @@ class ConstrainedLeapFrog(LeapFrog):
         model : :obj:`cpnest.Model`
         """
         super(ConstrainedLeapFrog, self).__init__(model=model, **kwargs)
+
+    def set_model(self, model):
+        super(ConstrainedLeapFrog, self).set_model(model)
         self.log_likelihood = model.log_likelihood
 
     def get_sample(self, q0, logLmin=-np.inf):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 5898442..b0f4700 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -431,6 +431,13 @@ class HamiltonianMonteCarloSampler(Sampler):
 
             yield (sub_counter, oldparam)
 
+    @classmethod
+    def resume(cls, resume_file, manager, model):
+        obj = super(HamiltonianMonteCarloSampler, cls).resume(resume_file, manager, model)
+        for p in obj.proposal.proposals:
+            p.set_model(model)
+        return obj
+
     def insert_sample(self, p):
         # if we did not accept, inject a new particle in the system (gran-canonical) from the prior
         # by picking one from the existing pool and giving it a random trajectory
-- 
2.43.0


From 838544b40af9a95d4ee7e16bcd7734035a413407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 27/34] fix: a signal handled during an access to a shared
 value left its lock behind and the run hanging

---
 cpnest/cpnest.py | 52 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 866c942..7570bf7 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -9,6 +9,7 @@ import re
 import sys
 import signal
 import logging
+import threading
 
 from multiprocessing.sharedctypes import Value, Array
 from multiprocessing import Lock
@@ -35,9 +36,54 @@ def sighandler(signum, frame):
     for s in SIGNALS:
         signal.signal(s, signal.SIG_IGN)
     LOGGER.critical("Handling signal {}".format(signum))
+    if SharedValue.access.depth > 0:
+        # raised once the value is released
+        SharedValue.access.interrupted = True
+        return
     raise CheckPoint()
 
 
+class Access(threading.local):
+    depth = 0
+    interrupted = False
+
+
+class SharedValue(object):
+    """
+    A value shared by the processes of a run. A signal handled while one of
+    them holds its lock ends that process after the lock is released: all
+    other processes would wait forever for a lock which was left behind.
+    """
+    access = Access()
+
+    def __init__(self, typecode, value):
+        self._value = mp.Value(typecode, value)
+
+    def get_lock(self):
+        return self
+
+    def __enter__(self):
+        self.access.depth += 1
+        self._value.get_lock().acquire()
+
+    def __exit__(self, *args):
+        self._value.get_lock().release()
+        self.access.depth -= 1
+        if self.access.interrupted and self.access.depth == 0:
+            self.access.interrupted = False
+            raise CheckPoint()
+
+    @property
+    def value(self):
+        with self:
+            return self._value.value
+
+    @value.setter
+    def value(self, value):
+        with self:
+            self._value.value = value
+
+
 class CPNest(object):
     """
     Class to control CPNest sampler
@@ -584,9 +630,9 @@ class RunManager(SyncManager):
 
     def start(self):
         super(RunManager, self).start()
-        self.logLmin = mp.Value(c_double,-np.inf)
-        self.logLmax = mp.Value(c_double,-np.inf)
-        self.checkpoint_flag=mp.Value(c_int,0)
+        self.logLmin = SharedValue(c_double,-np.inf)
+        self.logLmax = SharedValue(c_double,-np.inf)
+        self.checkpoint_flag=SharedValue(c_int,0)
 
     def connect_producer(self):
         """
-- 
2.43.0


From f54ba162cd4057fc339a1da15e1694e24df0fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 28/34] fix: a Hamiltonian sampler interrupted while it updated
 its ensemble could not go on when resumed

---
 cpnest/proposal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index e3e0505..455550e 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -444,7 +444,8 @@ class HamiltonianProposal(EnsembleEigenVector):
             tracers_array[i,:] = samp.values
         V_vals = np.atleast_1d([p.logL for p in self.ensemble])
 
-        self.normal = []
+        # a sampler interrupted before all are known keeps the previous ones
+        normal = []
         for i,x in enumerate(tracers_array.T):
             # sort the values
 #            self.normal.append(lambda x: -x)
@@ -479,8 +480,9 @@ class HamiltonianProposal(EnsembleEigenVector):
                               mode='mirror' # Reflective boundary conds.
                               )
             # construct a LSQ spline interpolant
-            self.normal.append(LSQUnivariateSpline(xs, f, knots, ext = 3, k = 3))
-            if self.DEBUG: np.savetxt('dlogL_spline_%d.txt'%i,np.column_stack((xs,Vs,self.normal[-1](xs),f)))
+            normal.append(LSQUnivariateSpline(xs, f, knots, ext = 3, k = 3))
+            if self.DEBUG: np.savetxt('dlogL_spline_%d.txt'%i,np.column_stack((xs,Vs,normal[-1](xs),f)))
+        self.normal = normal
 
     def unit_normal(self, q):
         """
-- 
2.43.0


From 78e90da588e5309fcae5ba5777426f848601fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 29/34] fix: Hamiltonian samplers of one-dimensional models
 died where the estimated likelihood gradient is zero

---
 cpnest/proposal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 455550e..5558617 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -500,6 +500,8 @@ class HamiltonianProposal(EnsembleEigenVector):
         """
         v               = np.array([self.normal[i](q[n]) for i,n in enumerate(q.names)])
         v[np.isnan(v)]  = -1.0
+        # flat in every direction, beyond the range of the ensemble
+        if not v.any(): v[:] = -1.0
         n               = v/np.linalg.norm(v)
         return n
 
-- 
2.43.0


From 86dfb15f6df92e6587277873ce349fc379e5efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 30/34] fix: chains that other runs left in the output folder
 were taken as this run's and deleted

---
 cpnest/cpnest.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 7570bf7..26ac612 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -233,6 +233,7 @@ class CPNest(object):
                 self.seed=seed
 
             self.process_pool = []
+            self.resumed = False
 
             # instantiate the nested sampler class
             resume_file = os.path.join(output, "nested_sampler_resume.pkl")
@@ -247,6 +248,7 @@ class CPNest(object):
             else:
                 self.NS = NestedSampler.resume(resume_file, self.manager,
                                                self.user)
+                self.resumed = True
 
             nmhs = self.nthreads-nhamiltonian-nslice
             # instantiate the sampler class
@@ -440,7 +442,8 @@ class CPNest(object):
 
     def collect_chains(self, name):
         """
-        Read and remove the chains that the samplers saved
+        Read and remove the chains that the samplers of this run saved.
+        Those of a resumed run may have been saved before it was interrupted.
 
         Parameters
         ----------
@@ -454,9 +457,11 @@ class CPNest(object):
         import numpy as np
 
         dtype  = [(n, 'f8') for n in list(self.user.names)+['logL','logPrior']]
+        pids   = [p.pid for p in self.process_pool]
         chains = []
         for file in sorted(os.listdir(self.NS.output_folder)):
-            if re.fullmatch(name+r'_\d+\.dat', file):
+            match = re.fullmatch(name+r'_(\d+)\.dat', file)
+            if match and (self.resumed or int(match.group(1)) in pids):
                 path = os.path.join(self.NS.output_folder, file)
                 chains.append(np.loadtxt(path, dtype=dtype, ndmin=1))
                 os.remove(path)
-- 
2.43.0


From af42f9fddd6fee2af75316596e6c770f50264aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 31/34] fix: a run resumed in a moved folder, or from another
 directory, wrote into the old place

---
 cpnest/NestedSampling.py | 4 ++++
 cpnest/sampler.py        | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 8bc876d..c03337c 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -552,6 +552,10 @@ class NestedSampler(object):
         obj.logger = logging.getLogger("cpnest.NestedSampling.NestedSampler")
         del obj.__dict__['llmin']
         del obj.__dict__['llmax']
+        # the folder may have been moved, or named from another one
+        obj.output_folder = os.path.join(os.path.dirname(filename) or '.', '')
+        obj.output_file, obj.evidence_file, _ = obj.setup_output(obj.output_folder)
+        obj.resume_file = filename
         obj.logger.critical('Resuming NestedSampler from ' + filename)
         obj.last_checkpoint_time = time.time()
         return obj
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index b0f4700..5f8aa21 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -322,6 +322,9 @@ class Sampler(object):
         obj.logLmax = obj.manager.logLmax
         obj.logger = logging.getLogger("cpnest.sample.Sampler")
         obj.producer_pipe , obj.thread_id = obj.manager.connect_producer()
+        # the folder may have been moved, or named from another one
+        obj.resume_file = resume_file
+        obj.output = os.path.join(os.path.dirname(resume_file) or '.', '')
         obj.logger.info('Resuming Sampler from ' + resume_file)
         obj.last_checkpoint_time = time.time()
         # the nested sampler may have been saved before these were accepted
-- 
2.43.0


From 50d97b0acd0d67a94b5ccd69c44531bfe2f474de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 32/34] fix: histograms of values that hardly differ for their
 magnitude made the run fail

---
 cpnest/plot.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cpnest/plot.py b/cpnest/plot.py
index 6e26e55..003a89b 100644
--- a/cpnest/plot.py
+++ b/cpnest/plot.py
@@ -48,6 +48,19 @@ def plot_chain(x, name=None, filename=None):
         plt.savefig(filename, bbox_inches='tight')
     plt.close(fig)
 
+def hist_edges(x, bins):
+    """
+    Edges of bins that cover the data: as many as asked for,
+    or as many as there is room for between values that hardly differ
+    """
+    if len(x) == 0:
+        return bins
+    edges = np.unique(np.linspace(np.min(x), np.max(x), bins+1))
+    if len(edges) < 2:
+        width = max(0.5, np.abs(np.spacing(edges[0])))
+        edges = np.array([edges[0]-width, edges[0]+width])
+    return edges
+
 def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None):
     """
     Produce a histogram
@@ -61,13 +74,13 @@ def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None
     fig = plt.figure()
     ax  = fig.add_subplot(111)
     ax.hist(x, density = True, color='black', linewidth = 1.25,
-                histtype='step', bins=bins, label = 'posterior')
+                histtype='step', bins=hist_edges(x, bins), label = 'posterior')
     if prior_samples is not None:
         ax.hist(prior_samples, density = True, color='green', linewidth = 1.0,
-                histtype='step', bins=bins, label = 'prior')
+                histtype='step', bins=hist_edges(prior_samples, bins), label = 'prior')
     if mcmc_samples is not None:
         ax.hist(mcmc_samples, density = True, color='red', linewidth = 1.0,
-                histtype='step', bins=bins, label = 'mcmc')
+                histtype='step', bins=hist_edges(mcmc_samples, bins), label = 'mcmc')
     ax.legend(loc='upper left')
     ax.set_ylabel('probability density')
     if name is not None:
-- 
2.43.0


From a94303499f6323d71993a77329935ef9e7f4d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 33/34] fix: Hamiltonian samplers sampled the density of the
 points they were sent instead of the prior

Trajectories started from the point last received, so at initialisation
and while filling the live set their samples kept following new_point,
and the evidence of models with a non-uniform prior was several sigma too low
---
 cpnest/sampler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 5f8aa21..e10b071 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -404,9 +404,18 @@ class HamiltonianMonteCarloSampler(Sampler):
 
             sub_accepted    = 0
             sub_counter     = 0
-            oldparam        = self.evolution_points.pop()
+            # the point at the right is the one just received: the samples
+            # would follow the density of the points sent, not the prior
+            for j in range(self.poolsize):
+                oldparam    = self.evolution_points.popleft()
+                if oldparam.logL > logLmin:
+                    break
+                self.evolution_points.append(oldparam)
+            else:
+                oldparam    = self.evolution_points.pop()
 
-            while sub_accepted == 0:
+            # several trajectories, to forget where a pool drawn by new_point started
+            while sub_accepted < (5 if logLmin == -np.inf else 1):
 
                 sub_counter += 1
                 newparam     = self.proposal.get_sample(oldparam.copy(), logLmin = logLmin)
-- 
2.43.0


From 1ee3522f7e7ad4e43fdf087927093079460f62bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 34/34] fix: posterior samples of a resumed run use the number
 of live points it ran with

---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 26ac612..a1c146d 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -429,7 +429,7 @@ class CPNest(object):
         import os
         from .nest2pos import draw_posterior_many
         nested_samples     = self.get_nested_samples()
-        posterior_samples  = draw_posterior_many([nested_samples],[self.nlive],verbose=self.verbose)
+        posterior_samples  = draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
         # TODO: Replace with something to output samples in whatever format
         if filename:
-- 
2.43.0

