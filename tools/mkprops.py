#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

NS, SA, PR, CP, MO, PA, N2, UT, PL = ("cpnest/%s" % f for f in
    ("NestedSampling.py", "sampler.py", "proposal.py", "cpnest.py", "model.py", "parameter.pyx", "nest2pos.py", "utils.py", "plot.py"))

prop("C01", "The reported evidence is the true evidence within its statistical error",
 """For any model whose prior and likelihood the user specifies, the log-evidence a finished run reports agrees with the true
 integral of likelihood over prior within the statistical error of nested sampling, sqrt(information / number of live points),
 and the reported information agrees with the true information likewise. This holds for every number of samplers, every mix of
 Metropolis-Hastings, slice and Hamiltonian samplers, every scheduling of them, and for flat and non-flat priors.""",
 ["inputs", "configurations", "schedules"],
 """All models with an analytic evidence (flat and non-flat priors, 1 to several dimensions, constant offsets and large
 log-likelihood magnitudes), all counts of live points and samplers, all sampler mixes and all interleavings of samplers and integrator.""",
 """The two stable tests assert nothing about the numbers; the numeric tests upstream are flaky single draws at 2 sigma on five models,
 and cannot see a bias smaller than the error of one run or one that needs an unusual configuration.""",
 [NS, SA, PR, CP], [("consume_sample / increment / finalise", NS), ("yield_sample of each sampler", SA), ("log_integrate_log_trap", N2)],
 ["CPNest.NS.logZ", "evidence file", "final log lines"])

prop("C02", "Posterior samples are distributed as the true posterior",
 """The posterior samples returned by a finished run are distributed, in every parameter and in log-likelihood, as the true
 posterior of the user's model, whatever the number and mix of samplers; the prior and MCMC chains that accompany them do not replace or alter them.""",
 ["inputs", "configurations", "schedules"],
 "All models with known posterior, all numbers of live points and samplers, sampler mixes and schedules.",
 """Stable tests never look at the samples; one upstream test does a single normality test on one 1-d model. A distribution can only be judged over
 many executions.""",
 [NS, SA, N2, CP], [("draw_posterior_many / compute_weights", N2), ("get_posterior_samples", CP), ("yield_sample", SA)],
 ["CPNest.posterior_samples", "posterior.dat"])

prop("C03", "Every sampling kernel leaves the constrained prior invariant",
 """Metropolis-Hastings and slice moves, with each of the shipped proposals on its own or cycled, leave the prior restricted to
 log-likelihood above the current threshold invariant: a population distributed that way is still distributed that way after any number of moves.
 A move never returns a point whose likelihood does not exceed the threshold unless it was given such a point and could not move it, and
 non-symmetric moves report the Jacobian that makes them reversible.""",
 ["inputs", "configurations", "histories"],
 "All dimensions, prior shapes, ensembles, thresholds, proposals and chain lengths.",
 "No test exercises a kernel or proposal on its own; a wrong Jacobian or acceptance rule biases the evidence by less than one run's scatter.",
 [SA, PR], [("MetropolisHastingsSampler.yield_sample", SA), ("SliceSampler.yield_sample", SA), ("get_sample / log_J / get_direction", PR)],
 ["points yielded by a sampler", "Proposal.get_sample + log_J"])

prop("C04", "Each step discards exactly the worst live points for strictly better ones",
 """At every nested-sampling step exactly as many points as there are samplers are discarded, they are the lowest-likelihood live points,
 and each is replaced by a point whose likelihood strictly exceeds that of every discarded point, so the number of live points stays constant
 and the recorded log-likelihood sequence never decreases, also when likelihoods are tied. A worker result that does not exceed the threshold is
 never admitted and is requested again.""",
 ["histories", "schedules", "inputs"],
 "All likelihoods including plateaus and ties, all numbers of live points and samplers (more live points than samplers), all orders and delays of worker replies.",
 "Tests only run to completion on one smooth likelihood; ties, stale replies and unlucky rejections depend on timing and are not asserted.",
 [NS], [("consume_sample, get_worst_n_live_points", NS), ("OrderedLivePoints", NS)],
 ["messages over the worker pipes", "recorded nested samples"])

prop("C05", "No sample is lost, duplicated or invented between workers and output",
 """In an uninterrupted run every point admitted to the live set (initially or as a replacement) appears exactly once in the returned nested
 samples, nothing else does, and there are exactly (number of live points) + (number of steps) x (number of samplers) of them. Each request sent to a
 sampler is answered by exactly one result carrying values, likelihood and prior unchanged across the process boundary.""",
 ["schedules", "histories", "configurations"],
 "All interleavings of samplers and integrator, counts of live points that are or are not a multiple of the samplers, rejection patterns and MCMC lengths.",
 "Conservation is a property of the message history under every schedule; tests never count anything.",
 [NS, SA], [("consume_sample, nested_sampling_loop", NS), ("_produce_sample", SA), ("__reduce__/__setstate__", PA)],
 ["messages over the worker pipes", "CPNest.get_nested_samples()"])

prop("C06", "Every recorded sample carries its own likelihood and prior, in bounds",
 """Every sample that a run records or returns (nested, posterior, prior and MCMC samples) lies strictly inside the model's bounds, has a
 finite log-prior, and carries exactly the log-likelihood and log-prior that the user's model returns for those parameter values. This holds for every sampler type,
 when moves are rejected, and when part of the prior volume has zero likelihood or zero prior.""",
 ["inputs", "configurations", "histories"],
 "All models (bounds, parameter orders, non-flat priors, excluded regions), sampler types, chain lengths and rejections.",
 "Stale or mismatched likelihood values are invisible to smoke tests and need rejected moves or unusual models to appear.",
 [SA, MO, NS, PR], [("yield_sample", SA), ("in_bounds / log_prior", MO), ("reset", NS)],
 ["nested_samples", "posterior_samples", "points received from workers"])

prop("C07", "Evidence, information and prior volumes follow from the recorded sequence",
 """The log-evidence, information and shrinking prior volumes a run reports are exactly those nested sampling assigns to its recorded log-likelihood
 sequence: volume shrinks by a factor exp(-discarded/live) per step and by one point at a time over the final live points, evidence is the trapezoidal integral of likelihood
 over those volumes, and everything is shifted, not distorted, when a constant is added to the log-likelihood. It stays finite and accurate for log-likelihoods of any magnitude.""",
 ["inputs", "histories"],
 "All non-decreasing log-likelihood sequences (including -inf starts, ties, huge magnitudes and dynamic ranges), all numbers of live points and batch sizes.",
 "No test compares the integrator with anything; end-to-end evidence has a statistical error that hides numerical mistakes.",
 [NS, N2], [("_NSintegralState.increment/finalise", NS), ("log_integrate_log_trap, logsubexp", N2)],
 ["NS.logZ", "NS.state (logLs, log_vols, info)"])

prop("C08", "A run ends when, and only when, the remaining evidence is small enough",
 """A run keeps replacing live points while the estimated change of log-evidence from the remaining prior volume, at the best likelihood seen, exceeds the tolerance, and
 stops at the first step at which it does not. Starting and finishing take a bounded amount of work: no run waits for a reply it has not asked for, whatever points
 the samplers return, and when it finishes every sampler process has ended.""",
 ["schedules", "inputs", "configurations"],
 "All tolerances, sampler counts, rejection patterns (including samplers that return unusable points while the live set is being filled) and schedules.",
 "Termination depends on reply order and on rejected points; tests run one smooth model with long chains where rejections do not occur.",
 [NS, SA, CP], [("nested_sampling_loop, reset, condition", NS), ("_produce_sample", SA), ("run", CP)],
 ["pipe traffic", "process exit", "NS.condition"])

prop("C09", "An interrupted and resumed run continues as if never interrupted",
 """A run interrupted by a termination signal at any moment, or resumed from its latest checkpoint any number of times, continues with the live points, recorded samples, likelihood threshold,
 evidence state and diagnostics it had: no sample is recorded twice or lost, the number of live points is unchanged, volume is not shrunk twice, and each sampler resumes from its own
 saved state. The completed run then satisfies everything an uninterrupted one does.""",
 ["crash_points", "histories", "schedules", "configurations"],
 "All interruption moments (any program point of a step, while waiting for a worker, between steps), repeated interruptions, all sampler mixes.",
 "No test checkpoints or resumes anything.",
 [NS, SA, CP], [("checkpoint/resume/__getstate__", NS), ("checkpoint/resume/__getstate__", SA), ("sighandler, CheckPoint", CP)],
 ["checkpoint files", "the resumed run's nested samples and evidence"])

prop("C10", "A crash while a checkpoint is written never costs the previous checkpoint",
 """If the process dies, or the disk fails, at any moment while a checkpoint is being written, a run started with resume afterwards finds a complete checkpoint: the previous one or the
 new one, never a truncated file that stops it from starting.""",
 ["crash_points", "fault_sequences"],
 "All points of the checkpoint write sequence of the integrator and of every sampler type, with and without an earlier checkpoint.",
 "Needs a fault at a particular write; tests never checkpoint.",
 [NS, SA], [("checkpoint", NS), ("checkpoint", SA)], ["checkpoint files on disk"])

prop("C11", "A termination signal checkpoints everything and ends every process",
 """With resume enabled, a termination, interrupt, alarm, quit or user signal delivered while a run is sampling makes it exit promptly with status 130 and leaves no process behind; once
 the live set exists, a loadable checkpoint of the integrator and of every sampler is on disk. Signals have no such effect when resume is not enabled, nor after the run.""",
 ["crash_points", "schedules", "configurations"],
 "All handled signals, all stages (sampler initialisation, filling the live set, main loop), all sampler mixes, signal to the main process or to the process group.",
 "No test sends a signal.",
 [CP, NS, SA], [("run, sighandler, checkpoint", CP), ("nested_sampling_loop", NS), ("produce_sample", SA)],
 ["process exit status", "process table", "checkpoint files"])

prop("C12", "Files on disk say exactly what the returned arrays say",
 """The chain, header, evidence, nested-sample, posterior, prior and MCMC files a run leaves behind contain, in order and to the written precision, the same rows, columns and numbers as the samples and
 evidence the run returns, under the column names in their headers, for any number and naming (without white space) of parameters and any magnitude of values. A run delivers them at every verbosity level, however few samples it produced.""",
 ["inputs", "configurations"],
 "All parameter names/orders/dimensions, value magnitudes, verbosity levels, numbers of live points, plain and resumed runs.",
 "test_verbosity only checks that nothing crashes on one model with 100 live points.",
 [NS, CP, MO, PL], [("write_chain_to_file, write_evidence_to_file", NS), ("get_*_samples", CP), ("strsample, header", MO)],
 ["output directory"])

prop("C13", "Posterior weights and draws follow nested-sampling weights exactly",
 """For any nested-sampling chain and number of live points the computed evidence and weights equal likelihood times prior-volume decrement over evidence, are unchanged (weights) or shifted (evidence) when a
 constant is added to the log-likelihood, and posterior drawing keeps each row with probability proportional to its weight, at most once, in order, always including a row of maximal weight. Drawing N samples with replacement returns
 exactly N rows of the input with frequencies proportional to the weights and works for weights of any normalisation.""",
 ["inputs"],
 "All chains (lengths, live points, dynamic ranges, zero-likelihood starts, ties), all weight vectors and requested sizes.",
 "No test calls these functions except through one smoke run.",
 [N2], [("compute_weights", N2), ("draw_posterior, draw_N_posterior", N2)], ["return values of cpnest.nest2pos"])

prop("C14", "Combining runs weights each by its evidence and returns only their samples",
 """Combining several nested-sampling runs returns only rows of the input runs and works for runs of any lengths and numbers of live points; runs whose evidence is negligible contribute nothing, replicate runs contribute equally whatever their order, and when a total
 number of samples is requested each run contributes that number times its share of the total evidence, rounded.""",
 ["inputs", "configurations"],
 "All sets of runs: equal and unequal lengths, live points and evidences; all requested totals including zero.",
 "Nothing in the tests combines runs.",
 [N2], [("draw_posterior_many", N2), ("draw_N_posterior_many", N2)], ["return values of cpnest.nest2pos"])

prop("C15", "A live point behaves as a named vector of doubles with value semantics",
 """A live point maps each parameter name to one double; addition, subtraction, scaling and in-place forms act element-wise in full double precision, in-place forms change only the left operand and the others
 change neither operand; copies, pickled copies and record-array views reproduce names, values, log-likelihood and log-prior bit for bit and share no storage with the original. Access under an unknown name is an error.""",
 ["inputs", "histories"],
 "All names, dimensions, values (subnormal, huge, NaN, infinite), operation sequences and pickle protocols.",
 "No test touches the container directly.",
 [PA], [("LivePoint arithmetic, copy, __reduce__, asnparray", PA)], ["cpnest.parameter.LivePoint"])

prop("C16", "The native live-point code never corrupts memory or leaks references",
 """No sequence of operations on live points that well-typed Python code can issue, including malformed initial arrays, mismatched dimensions, unknown names, foreign operand types, truncated pickles and reassigned attributes, reads or writes out of
 bounds, executes undefined behaviour or leaks or over-releases references: it succeeds or raises an exception.""",
 ["inputs", "histories"],
 "All operation sequences over the extension type, well-formed or malformed.",
 "The extension is compiled with bounds checks off; ordinary builds hide out-of-bounds reads and reference leaks.",
 [PA, "cpnest/parameter.pxd"], [("boundscheck=False, wraparound=False", PA)], ["AddressSanitizer/UBSan reports", "reference counts"])

prop("C17", "Prior sampling delivers exactly the requested draws from the prior",
 """A run in prior-sampling mode ends with exactly the requested number of live points as its samples, each drawn from the user's prior (flat or not) within bounds and each with its likelihood evaluated, ignoring the values of a positive likelihood in
 choosing them; the collected prior samples additionally contain every sampler's own prior chain exactly once.""",
 ["inputs", "configurations", "schedules"],
 "All priors, numbers of live points and samplers, verbosity levels.",
 "No test enables prior sampling.",
 [NS, SA, CP], [("nested_sampling_loop prior branch, reset", NS), ("reset", SA), ("get_prior_samples", CP)], ["nested samples", "prior samples"])

prop("C18", "The live set stays ordered and reports each insertion's true rank",
 """After any sequence of insertions and removals the live set is ordered by log-likelihood, contains exactly the points inserted and not removed, and the position reported for an insertion is where the point went (after its equals).
 The insertion indices a run records lie in [0, 1], one per admitted replacement, and equal the rank of the new point among the surviving live points divided by their number.""",
 ["histories", "inputs"],
 "All insertion/removal sequences with ties and duplicates, through pickling too; all runs.",
 "Order is never inspected by a test; the diagnostic is only computed, never checked.",
 [NS], [("KeyOrderedList, OrderedLivePoints", NS), ("consume_sample insertion_indices", NS)], ["OrderedLivePoints", "NS.insertion_indices", "insertion_indices.dat"])

prop("C19", "The best likelihood seen never decreases, whichever sampler reports it",
 """The best log-likelihood the samplers share never decreases during a run and is kept when it is interrupted and resumed, under every interleaving of any number and mix of samplers, and at the end it is at least the log-likelihood of every point any sampler accepted, hence what the
 evidence file reports as the maximum is at least every accepted sample's.""",
 ["schedules", "configurations"],
 "All interleavings of concurrent updates by samplers of all kinds.",
 "A lost update needs two samplers to accept within a narrow window; tests never read the value.",
 [SA, NS], [("logLmax updates in yield_sample", SA), ("write_evidence_to_file", NS)], ["shared maximum", "evidence file"])

prop("C20", "Parallel samplers never share a random stream",
 """No two samplers of a run draw from the same random stream, whether the run is fresh or resumed and whatever mix of samplers it has, so that their chains are statistically independent.""",
 ["configurations", "histories", "crash_points"],
 "All sampler mixes and counts, seeds, fresh and resumed runs, repeated resumes.",
 "Two processes drawing identical numbers crash nothing and only inflate errors.",
 [SA, CP], [("np.random.seed in reset, seed=self.seed+i", SA), ("CPNest.__init__", CP)], ["numbers drawn in each sampler process"])

prop("C21", "A run touches only its own files in its output folder",
 """Whatever the output folder is called and whatever else is in it, a run creates, modifies and deletes files only inside that folder, deletes only the per-sampler chain files its samplers wrote there, and executes no shell
 command built from file names.""",
 ["inputs", "configurations"],
 "All folder names (spaces, quotes, shell metacharacters, non-ASCII, relative, with and without trailing separator), pre-existing files, verbosity levels and modes.",
 "Tests run in the current directory with default names.",
 [CP, NS, SA], [("get_posterior_samples / get_prior_samples / get_mcmc_samples", CP), ("setup_output", NS)], ["file system events", "audit events"])

prop("C22", "Model helpers respect the prior's support and invert each other",
 """A point is in bounds exactly when every parameter lies strictly between its own bounds; newly drawn points are uniform over the bounds restricted to the prior's support and never outside it; the default prior is zero inside and minus
 infinity outside; mapping to the unit cube and back are inverse to each other and keep the order of parameters.""",
 ["inputs"],
 "All bounds (negative, huge, tiny, mixed), dimensions, priors that exclude part of the box, NaN and boundary values.",
 "No test calls these helpers on anything but one box.",
 [MO], [("in_bounds, new_point, log_prior, from_normalised, to_normalised", MO)], ["cpnest.model.Model"])

prop("C23", "A run's log file receives its records once and its handlers never leak",
 """While a run is constructed or executed, package log records at or above the chosen verbosity are written to the log file in the output folder exactly once, and none below it; when construction, the run or an
 exception ends, logging is back to what it was, so that any number of runs in one process neither duplicate each other's records nor leak open files.""",
 ["histories", "configurations"],
 "All verbosity levels and sequences of runs, failing or not, nested or sequential log-file contexts.",
 "Tests never read the log nor run two samplers with different verbosity in a way that asserts on handlers.",
 [UT, CP], [("LogFile, _Handler", UT), ("with self.log_file", CP)], ["cpnest.log", "logging handlers", "open file descriptors"])

prop("C24", "Producing a new sample never alters a point already held or recorded",
 """Proposing and accepting moves never modifies any point that is already in a sampler's ensemble, in the live set or among the recorded samples: once recorded, a sample's values, likelihood and prior stay the same for the rest of the run.""",
 ["histories", "schedules", "configurations"],
 "All proposals and sampler types, all chain lengths and histories.",
 "Aliasing mistakes corrupt samples silently.",
 [SA, PR, NS, PA], [("oldparam.copy() before get_sample", SA), ("in-place operators", PA)], ["points in ensemble / live set / chain before and after"])

prop("C25", "A sampler that dies ends the run with an error instead of hanging it",
 """If a sampler process fails before sampling is complete (the user's likelihood raises, the process is killed, or it exits early) the run ends with an error within a bounded time and leaves no process behind; and sampler processes do not outlive a main process that is killed.""",
 ["fault_sequences", "crash_points"],
 "All failure moments (initialisation, filling, main loop) and kinds (exception, kill, early exit), any sampler.",
 "Tests never inject a failure; the test-suite notes say a dead sampler leaves the parent waiting.",
 [CP, NS, SA], [("recv on worker pipes", NS), ("run", CP), ("RunManager pipes", CP)], ["process exit", "process table"])

prop("C26", "Proposal cycles use every jump in proportion to its weight",
 """A proposal cycle calls its jumps in proportion to their weights, normalised whatever their scale, reports the Jacobian of the jump it just used, passes ensemble updates on to every jump that needs them, and keeps these
 properties when a jump is added to it or when the user supplies custom jumps.""",
 ["inputs", "histories"],
 "All weight vectors, cycle lengths, added proposals and ensembles.",
 "No test inspects a cycle.",
 [PR], [("ProposalCycle", PR)], ["calls to each jump", "log_J"])

prop("C27", "MCMC chains respect the configured length limits",
 """Between two samples a Metropolis-Hastings sampler makes no more chain moves than the configured maximum (a slice sampler at most one more), makes at least the currently estimated number unless it hits that maximum (a Hamiltonian sampler that is given a likelihood threshold returns its first accepted move), keeps the estimate positive and finite, and
 reports acceptance fractions between 0 and 1 that equal accepted over attempted moves.""",
 ["configurations", "histories", "inputs"],
 "All maximum lengths, pool sizes, acceptance histories and sampler types.",
 "Chain lengths are never asserted.",
 [SA], [("yield_sample loop, estimate_nmcmc, estimate_nmcmc_on_the_fly", SA)], ["tuples sent by workers", "calls to the user's model"])

prop("C28", "Chain thinning returns genuine rows and leaves the caller's data alone",
 """Autocorrelation and its length do not depend on shift or scale of the chain; the length is at least one step, grows with the true correlation and, on average, agrees with the true length of chains for which that is known (to within a quarter or so); resampling an MCMC chain, with or without burn-in removal, returns only rows of that chain, each at most once, no more
 than its length over the autocorrelation length, and does not modify the caller's array.""",
 ["inputs"],
 "All chains: white, strongly correlated, constant columns, short, with any columns.",
 "No test calls them except through a verbosity-3 smoke run.",
 [N2], [("resample_mcmc_chain, acl, autocorrelation", N2)], ["return values of cpnest.nest2pos"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
