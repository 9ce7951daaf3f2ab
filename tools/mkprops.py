import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

M="conjugate/models.py";D="conjugate/distributions.py";PL="conjugate/plot.py";S="conjugate/slice.py"
add("C01","Incremental updating equals exact Bayes on the data absorbed",
"For every supported likelihood/prior pair, the belief obtained by pushing observations through the model function, each posterior serving as the next prior, equals the exact Bayesian posterior of the original prior given the multiset of observations absorbed - however the stream was cut into batches (empty batches and lanes with no data included), reordered, merged, vectorised over lanes or resumed from a saved belief after a crash. Where the belief is a density known only up to a constant, its log density changes by exactly the log likelihood of the absorbed data up to an additive constant.",
["histories","schedules","crash_points"],"every likelihood/prior pair, every data stream, every way of cutting, ordering and merging it, every crash/restore point between updates",
"Tests make one single-batch call per model and mostly assert only the type of the result; no test chains two updates with a numeric oracle, feeds an empty batch, or restores a saved belief.",
[M,D],[("posterior-as-next-prior algebra of every model function",M),("approx_log_likelihood / log_likelihood of the 'Proportional' beliefs",D)],
["public fields of the distribution returned by each model function","approx_log_likelihood(...) and log_likelihood(...)"],
None,[("belief","hyper-parameters carried from batch to batch","fields of the distribution dataclasses")])
add("C02","Predictive distributions are coherent along every arrival order",
"For every model with a predictive function, the probabilities that the successive one-step-ahead predictives give to the observations that actually arrive multiply to the exact marginal likelihood of the data, hence to the same number for every arrival order and every cut into batches. A predictive for an aggregate of n future trials is the law of the total of the next n observations.",
["histories","schedules"],"every data stream, every arrival order and every batching, for every model/predictive pair",
"Tests build each predictive once and check its type (or that one number is larger than another); none checks that predictive, update and observation model fit together over a sequence.",
[M,D,"conjugate/_beta_geometric.py","conjugate/_compound_gamma.py"],[("*_predictive functions",M),("dist property of the predictive families (BetaBinomial, NegativeBinomial, Lomax, CompoundGamma, BetaGeometric, BetaNegativeBinomial, StudentT, MultivariateStudentT, DirichletMultinomial, Normal, MultivariateNormal)",D)],
["predictive.dist.pdf/pmf/logpdf/logpmf at the observation about to be absorbed"])
add("C03","Calls change none of their inputs, and an interrupted call leaves no trace",
"No model function, distribution method, indexing operation, sampler or plot modifies its arguments or any distribution that existed before the call (the setters of plotting bounds change only their own object's bounds; a supplied random generator is advanced by the draws). If a call is cut short at any instant by an exception (failed allocation, keyboard interrupt, failing user-supplied function or number), that exception reaches the caller, all inputs and earlier beliefs are exactly as before, and repeating the call gives the result it would have given had nothing happened.",
["crash_points","fault_sequences","histories"],"every operation, every instant inside it at which an exception can arrive, every kind of exception, every later retry",
"Tests never raise inside a call, never re-check the prior or the data after a call, and never retry.",
[M,D,S,PL],[("model functions build new distributions instead of editing the prior",M),("SliceMixin.__getitem__ / exception handling around value[key]",S),("try/except fallback for list inputs of the Dirichlet models",M)],
["public fields and bounds of every live distribution and every caller-owned array, before and after each call","type of the exception that reaches the caller"])
add("C04","Concurrent callers are isolated from each other",
"Any number of threads may use the models, distributions, indexing, seeded samplers (each with its own generator) and plots (each on its own axes) at once, on private or shared read-only priors and data. For every interleaving each call returns exactly what it would have returned had it run alone.",
["schedules"],"every interleaving of concurrent calls at instruction granularity inside the package, including handles (such as dist) obtained before and used after another thread ran",
"The test suite is single threaded; no test has two calls in progress at once.",
[M,D,PL,S,"conjugate/_beta_geometric.py","conjugate/_compound_gamma.py"],[("no shared mutable state: every call works on locals and fresh objects",M),("dist properties build a fresh scipy object per access",D),("per-instance plotting bounds",PL)],
["return value of each call, compared bit for bit with the same call run alone"])
add("C05","Seeded sampling is a pure function of the seed and uses one stream",
"Every sampler given a random_state draws only from it: equal generator states give equal draws, an integer seed gives the draws of a fresh numpy RandomState of that seed, the given generator is advanced, and the ambient numpy random state is neither read nor advanced, whatever other consumers do in between. Draws made within one call come from one continuing stream, so no two of them are copies of the same underlying randomness; without a random_state the ambient numpy state is the source.",
["schedules","histories","configurations"],"every sampler, size and seed form (int, RandomState, Generator), every interleaving with other consumers, every save/restore of the generator between calls",
"Tests look only at the shape of samples, use at most one generator and never compare two runs.",
[D,"conjugate/_beta_geometric.py","conjugate/_compound_gamma.py",PL],[("random_state threaded through sample_variance/sample_mean/sample_beta and the hand-written rvs methods",D),("DirichletPlotDistMixin.plot_pdf(random_state=...)",PL)],
["returned draws","state of the supplied generator and of numpy's global generator after each call"])
add("C06","Beliefs stay calibrated in self-simulated worlds with faulty delivery",
"When a world's true parameter is drawn from the prior and its observations from the likelihood, both with the library's own samplers, the belief reached after any number of delivered observations is calibrated: across worlds the truth is a uniformly distributed quantile of the belief, however messages are delayed, reordered or lost independently of their content, and even when the next action is chosen from the current belief (Thompson sampling). The joint samplers (mean and variance together, vectors and their indexed components) follow the joint law of the belief they are called on.",
["schedules","fault_sequences","histories"],"all random worlds, delivery schedules and closed-loop policies (sampled)",
"Calibration is a statement about the distribution of outcomes over random worlds; a test sees one seed, and no test compares samples of a distribution with what a model infers from them.",
[M,D,"conjugate/_beta_geometric.py","conjugate/_compound_gamma.py"],[("agreement between each distribution's documented parameters, its sampler and its density",D),("model functions",M)],
["posterior cdf or posterior-sample rank of the true parameter"])
add("C07","Vectorised lanes are independent of each other",
"A vectorised update, predictive or density over K lanes gives, in lane i, exactly what the scalar computation gives for lane i's parameters and data, whatever the broadcasting shape and whatever happens in other lanes, including lanes that receive no data or corrupt (nan, infinite, out-of-range) data. Indexing a distribution whose parameters are plain numbers or arrays of the lanes' shape by a valid lane index, slice, mask or list yields the belief of exactly those lanes, at any point of the history; an index that no lane has is an error, and iterating over the distribution visits each lane once and ends.",
["histories","fault_sequences","inputs"],"every schedule of lane updates, every subset of corrupt or silent lanes, every broadcastable shape and valid index",
"Tests check the type of a vectorised result or slice one fixed array; none compares lanes with scalar runs or corrupts a lane.",
[M,D,S],[("elementwise arithmetic in the models",M),("SliceMixin.__getitem__, MultivariateNormal/MultivariateStudentT __getitem__",S)],
["fields and densities per lane, before and after indexing"])
add("C08","Models work on inputs whose values are not known yet",
"Every model and predictive expressed in number-like inputs, and the scaling/adding operators and alternative constructors of the distributions, perform only arithmetic on them and never look at a value: with placeholders that are resolved later (SQL columns, lazy or remote numbers) the result can be built before any input is resolved. Evaluating it after the inputs resolve, in any order and as often as they are re-bound to new values, gives what eager numbers would have given, and functions supplied by the caller (log, max, sine, ...) are the ones used.",
["schedules","inputs"],"every resolution order, re-binding and failure of the inputs, for every model that takes number-like inputs",
"Only one helper (binomial/beta) is tested with symbolic inputs, and only by comparing strings; nothing checks when values are read.",
[M,D,"conjugate/_typing.py"],[("arithmetic-only use of NUMERIC inputs; injectable ln/max_fn/sin/cos/arctan2",M),("NUMERIC protocol","conjugate/_typing.py")],
["operations performed on placeholder inputs; value of the built expression after resolution"])
add("C09","A belief of the wrong family is rejected before anything happens",
"Passing a model or predictive function a prior or distribution that is not of (one of) the family it is annotated to accept, or none at all, raises ValueError naming the type received, before any data is looked at. The node that received it can carry on: its own belief and data are unchanged and the next correctly routed call gives the normal result.",
["fault_sequences","histories"],"every model and predictive function, every wrong family, every position of the misdelivery in a history",
"Two of some fifty functions are tested with one wrong type each; functions accepting several families are not tested at all.",
[M],[("validate_prior_type / validate_distribution_type decorators",M),("nu check in normal()",M)],
["exception type and message; operations performed on the data arguments; later results"])
add("C10","Distributions survive save and restore and always reflect their parameters",
"A distribution restored from a pickle or copied at any point of its life is indistinguishable from the original: same parameters, bounds, equality, density, draws and later updates, and the two then evolve independently in parameter assignments and bounds. At every point of any history of parameter assignments, in-place edits of parameter arrays, bound changes, indexing, evaluations and restores, dist describes the current parameters, never earlier ones.",
["histories","crash_points"],"every history of assignments, edits, evaluations, copies and crash/restore points",
"Tests create a distribution, look at it once and drop it; nothing pickles, copies or re-assigns parameters.",
[D,S,PL],[("dist computed on access",D),("plain dataclasses with plain attributes",D),("_max_value/_min_value instance attributes",PL)],
["fields, bounds, dist densities and draws, model results after each step"])
add("C11","A plot call draws its own curve on its own axes and disturbs nothing else",
"A plot call adds to the axes it was given (or else the current axes) exactly the lines of its distribution's density, probability or cdf under the current parameters over the current bounds, one per lane with that lane's label, names the axes by what was drawn (density or probability, cumulative or conditional, over which bounds), returns those axes, and changes no line, label or other axes drawn before or elsewhere. Whatever the order in which callers share an axes whose limits they did not fix, every curve drawn by the package stays inside the vertical range and that range is the same; a call that is rejected (bounds not set, failing label function, wrong number of labels, unknown keyword) leaves every line, label and limit of every axes as it was.",
["schedules","fault_sequences","histories"],"every order and interleaving of plot calls by callers sharing figures and axes, every failing call in between",
"Image tests cover a few fixed single-caller figures; nothing varies the order of calls, makes a call fail, or checks other axes.",
[PL,D],[("_plot/_create_plot_on_axis/_settle_axis, set_ylim handling",PL),("label_to_iterable/resolve_label",PL),("set_bounds/max_value/min_value",PL)],
["Line2D data, labels, colours and limits of all axes after each call"])
add("C12","Scaling and adding distributions is the law of the sum in any merge order",
"Multiplying a Poisson, Gamma, Exponential, Negative Binomial or Normal by a positive whole number k gives the distribution of the sum of k independent copies, and adding Poissons gives the distribution of their sum. Partial results merged by any number of workers in any order and grouping, from either side, with work lost and redone, therefore yield the same distribution, and the operands are unchanged.",
["schedules","histories"],"every merge tree, order and operand side, every re-execution of lost work",
"Tests multiply once by 2 with all parameters equal to 1 and add once.",
[D],[("__mul__/__rmul__/__add__/__radd__",D)],
["parameters, mean, variance and density of the merged distribution"])
add("C13","No call leaves ambient process state changed",
"After any history of calls - completed, failed, or cut short at any instant - the process-wide state that other code depends on is as it was: floating-point error settings, warning filters, matplotlib settings, the set of open figures and the current axes, environment, working directory, files and threads. The only exceptions are the documented ones: drawing without random_state advances the ambient random state, and plotting without an axes uses (or creates) the current one. Other threads and caller-supplied functions that run while a call is under way see that state unaltered too (thread-local floating-point error settings excepted).",
["crash_points","histories","fault_sequences"],"every operation, every instant at which it is interrupted, every ambient configuration it is started under",
"Tests never compare process state before and after a call, least of all after one that fails half way.",
[M,D,PL],[("models and distributions keep to local values; warnings.warn only in deprecated wrappers",M),("plt.gca only when ax is None",PL)],
["np.geterr, warnings.filters, plt.rcParams, plt.get_fignums, numpy global random state, os.environ, cwd, threading.enumerate before and after each call"])
add("C14","Alternative constructors and conversions give the documented parameters",
"Every alternative constructor and conversion (from mean, from mean and variance or precision, from successes and failures, from occurrences in intervals, uninformative, to and from inverse gamma) yields the distribution its documentation names.",
["inputs"],"all valid constructor arguments",
"Tests sample a handful of arguments.",
[D],[("classmethod constructors",D)],["fields of the constructed distribution"])
add("C15","Every density is normalised and matches its documented parameterisation",
"For every distribution and all valid parameters, the density or mass function exposed through dist is non-negative, sums or integrates to one over its support, and is the one named by the documented parameters.",
["inputs"],"all valid parameters",
"Tests only check that a plot can be made at one parameter value.",
[D,"conjugate/_beta_geometric.py","conjugate/_compound_gamma.py"],[("dist properties",D)],["dist.pdf/pmf/cdf"])
add("C16","The public API is fully typed and importable without optional packages",
"The package ships type information for its public functions and imports with only its declared runtime dependencies.",
["configurations"],"all supported dependency sets",
"Tests run in one environment.",
["conjugate/py.typed","conjugate/_typing.py","pyproject.toml"],[("py.typed marker","conjugate/py.typed")],["import conjugate.*; type checker output"])
add("C17","A long-running process keeps only what its caller keeps",
"However long a process keeps calling the package, the package holds on to nothing: once the caller has dropped a belief, data, a generator, a label function, axes or a result, the object is released, also when the call that used it was rejected, was cut short by an exception or ran in a thread that has ended. Memory in use, the size of a belief that has absorbed many batches (and of its saved form) and the steps a call takes do not grow with the number of calls made or batches absorbed before.",
["histories","crash_points","fault_sequences"],"every history of calls - completed, rejected, interrupted, chained, restored - of any length, in any threads",
"Tests call each function a handful of times in a process that ends; nothing looks at what is still alive or how large a belief is after many calls.",
[M,D,PL,S,"conjugate/_beta_geometric.py","conjugate/_compound_gamma.py"],[("functions without state; results hold their parameters only",M),("dist objects built on access",D),("plots write to the axes only",PL)],
["weak references to inputs and results after the caller dropped them","live memory, size of the pickled belief and number of executed lines per call, from period to period of a long history"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
