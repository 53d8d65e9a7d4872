#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the statements are reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

G="aemcmc/gibbs.py"; C="aemcmc/conjugates.py"; R="aemcmc/rewriting.py"; B="aemcmc/basic.py"; N="aemcmc/nuts.py"
D="aemcmc/dists.py"; F="aemcmc/ffbs.py"; T="aemcmc/types.py"; U="aemcmc/utils.py"; S="aemcmc/sample.py"; X="aemcmc/transforms.py"; I="aemcmc/__init__.py"

p("C01","Conjugate updates draw from the exact conditional posterior",
  "For a gamma prior with a Poisson likelihood, and for a beta prior with a binomial or a negative binomial likelihood, the sampling step constructed for the latent variable draws from exactly the conditional posterior: Gamma with shape a + y and rate (prior rate) + 1, Beta(a + y, b + n - y), and, as the negative binomial counts the failures y before the n-th success, Beta(a + n, b + y). The draw has the size and dtype of the prior, and uses the prior's own parameters whatever expressions they are.",
  ["inputs","programs"],"all prior parameters, likelihood sizes and observed values, and all models in which the pair occurs",
  "The tests check that the right kind of variable comes back and compare a graph built from the same relation; none compares the posterior's parameters with Bayes' rule, whose truth for all real-valued parameters no finite number of draws settles.",
  [C],[("gamma-Poisson relation","conjugates.py gamma_poisson_conjugateo"),("beta-binomial relation","conjugates.py beta_binomial_conjugateo"),("beta-negative-binomial relation","conjugates.py beta_negative_binomial_conjugateo"),("finders evaluating the relations","conjugates.py local_*_posterior")])
p("C02","Gaussian regression draws target the conditional posterior of the coefficients",
  "Given observation precisions w, prior inverse standard deviations t, a design matrix X and working responses z, the regression step draws coefficients with precision matrix X' diag(w) X + diag(t^2) and mean equal to the inverse of that precision applied to X' diag(w) z. This holds for both algorithms behind it, and the one intended for more coefficients than observations is used exactly when X has more columns than rows.",
  ["inputs","configurations"],"all shapes (n < p, n = p, n > p), weights, prior scales, design matrices and responses",
  "Tests look at posterior means within 10-50% tolerances with unit prior scales, for a handful of shapes; a wrong power of the prior scale or a swapped branch passes them.",
  [G,D],[("overdetermined branch","gibbs.py normal_regression_overdetermined_posterior"),("underdetermined branch","gibbs.py normal_regression_underdetermined_posterior"),("dimension dispatch","gibbs.py normal_regression_posterior")])
p("C03","Structured multivariate normal samplers have the documented mean and covariance",
  "The dense sampler taking a vector b and a precision matrix Q returns a draw from N(Q^-1 b, Q^-1), and the structured sampler taking A, omega, phi and t returns a draw from N(L^-1 phi' diag(omega) t, L^-1) with L = diag(A) + phi' diag(omega) phi. The standard normal noise they consume is drawn fresh, has exactly as many elements as the algorithm needs, and no noise element is used for two purposes.",
  ["inputs"],"all positive definite Q, positive A and omega, and all conforming phi, b, t",
  "The tests compare Monte Carlo moments for one or two fixed matrices at loose tolerances; the identity must hold for every matrix.",
  [D],[("Cholesky sampler","dists.py multivariate_normal_rue2005"),("structured sampler","dists.py multivariate_normal_cong2017")])
p("C04","Logistic-link coefficient updates use the right Polya-Gamma augmentation",
  "For negative binomial and Bernoulli regressions whose success probability is the logistic function of minus the linear predictor, the coefficient step augments with Polya-Gamma variables with the parameters of that likelihood at the current coefficients (y + h, respectively 1, and the linear predictor) and then draws the coefficients from the Gaussian conditional with those variables as observation precisions, working responses (y - h)/2, respectively y - 1/2, divided by them, and the prior's standard deviations; the sign of the linear predictor is the one that the matched model uses. The step uses the current coefficients, the model's own design matrix and prior scales, and the observed response.",
  ["inputs","programs"],"all design matrices, responses, dispersions, prior scales and coefficient values",
  "The existing tests exercise the two building blocks in isolation with unit prior scales and never check the posterior produced for a matched Bernoulli model, so an inverted sign or a swapped argument survives.",
  [G],[("negative binomial augmentation","gibbs.py nbinom_normal_posterior"),("Bernoulli augmentation","gibbs.py bern_normal_posterior"),("wiring into steps","gibbs.py nbinom_logistic_finder, bern_logistic_finder")])
p("C05","Horseshoe shrinkage updates are exact Gibbs updates",
  "For coefficients distributed N(0, lambda_j^2 tau^2 sigma^2) with standard half-Cauchy local and global scales, the shrinkage step draws new local scales from their conditional given the coefficients and the current global scale, and then a new global scale given the coefficients and the new local scales, by way of the inverse-gamma mixture representation with the correct rates and shapes. The values returned are scales, not squares or inverses, and each goes to the variable it updates.",
  ["inputs"],"all coefficient vectors, scales and dimensions",
  "The only test is a loose check of posterior means on simulated regressions; exponential draws parameterised by scale instead of rate passed it.",
  [G],[("shrinkage kernel","gibbs.py horseshoe_posterior"),("wiring into steps","gibbs.py normal_horseshoe_finder")])
p("C06","Dispersion update uses Chinese-restaurant counts and the gamma conditional",
  "For a negative binomial regression whose dispersion has a gamma prior, the dispersion step draws one Chinese-restaurant table count per observation (zero tables for a zero count, otherwise one plus a sum of independent Bernoulli draws with probabilities h/(n - 1 + h) for n = 2..y at the current dispersion h), and then draws the new dispersion from a gamma distribution with shape a plus the total number of tables and rate equal to the prior rate minus the sum of the log probabilities that the likelihood raises to the dispersion.",
  ["inputs"],"all counts, probabilities, prior parameters and current dispersion values",
  "One test checks the mean of table counts for a few pairs and another a 10% band around one posterior mean; neither fixes the exact conditional.",
  [G],[("table counts","gibbs.py sample_CRT"),("gamma conditional","gibbs.py nbinom_dispersion_posterior"),("wiring","gibbs.py nbinom_logistic_finder")])
p("C07","FFBS draws state sequences from the hidden Markov posterior",
  "The discrete state sampler filters forward with the normalised initial probabilities, the transition matrix into each time step and that step's likelihood, up to a positive per-step rescaling, and then samples states backward, the last one from the final filtered probabilities and each earlier one in proportion to its filtered probability times the transition probability into the state sampled after it. The returned sequence is in forward time order, has one state per observation, and comes with the random-generator updates of the backward pass.",
  ["inputs"],"all numbers of states and observations, initial probabilities, constant or time-varying transition matrices and log-likelihoods",
  "Tests use degenerate likelihoods or strictly alternating transitions, for which most index shifts and transposes cannot be seen.",
  [F],[("forward pass","ffbs.py forward_step and its scan"),("backward pass","ffbs.py backward_step and its scan"),("sequence assembly","ffbs.py ffbs_step")])
p("C08","Specialised samplers are offered only for models they are exact for",
  "A specialised sampling step is offered only when the model has exactly the form that the step is derived for: the required families, one latent element per observed element for conjugate pairs, standard half-Cauchy scales in a product with one global and one local scale for a zero-mean coefficient vector, a zero-mean normal coefficient vector under a logistic link whose linear predictor is multiplied by a constant that is minus one everywhere, and a scalar gamma dispersion. Every other model is declined without an error so that a general sampler is used, and every model of the required form is accepted.",
  ["programs"],"all models that can be written with the library's random variables",
  "Tests try a few positive and negative examples per matcher; the space of near-miss models (other constants, means, link scales, broadcasted latents) is unbounded.",
  [G,C],[("horseshoe recognition","gibbs.py horseshoe_match"),("regression recognition","gibbs.py nbinom_sigmoid_dot_match, bern_sigmoid_dot_match"),("gamma recognition","gibbs.py gamma_match"),("conjugate recognition","conjugates.py *_conjugateo and local_*_posterior"),("declining","gibbs.py, conjugates.py finders")])
p("C09","Every unobserved variable gets exactly one update and one initial value",
  "For any set of observed variables, the constructed sampler maps every unobserved random variable that the observations depend on, and no observed one, to exactly one new value, and returns one fresh initial-value variable of the same type for each of them, both keyed by the variables the user passed in. Variables with a specialised step get that step, and all the remaining ones, and only those, are updated jointly by the general gradient-based sampler.",
  ["programs","configurations"],"all models and choices of observed variables",
  "The tests construct samplers for five fixed models with a single observed variable each.",
  [B,R],[("partition into specialised and general steps","basic.py construct_sampler"),("collection of random variables","rewriting.py construct_ir_fgraph"),("mapping back to the user's variables","basic.py construct_sampler, rewriting.py construct_ir_fgraph")])
p("C10","Updates condition on observed data and on the most recent values",
  "In the constructed sampler every update is a function of the observed values, the initial-value variables and the updates that precede it: each occurrence of another random variable is replaced by its observed value, by the new value if it has been updated earlier in the scan, and by its current value otherwise, and never by a fresh draw from the prior or a value that an earlier update has already superseded. The general sampler runs after the specialised steps and conditions on their new values.",
  ["programs","histories"],"all models, observed sets and numbers of scans",
  "Tests inspect the type of a few steps and approximate means; conditioning on a stale value or on a prior draw leaves marginal means nearly unchanged and was in fact happening.",
  [B,R,N],[("substitution of values in steps","basic.py construct_sampler"),("in-line expansion without copying inputs","rewriting.py inline_SubsumingElemwise"),("realized values of the general sampler","basic.py construct_sampler, nuts.py step")])
p("C11","Random-generator updates are complete and paired with their own generators",
  "Every update mapping returned by a sampler constructor contains an entry for each random generator that a scan or a sampling kernel advances, and maps each generator or shared variable to the next state computed for that same variable by the step that is returned. No entry is lost, duplicated or exchanged with another one when steps are combined or wrapped, whether or not the model contains other shared variables.",
  ["programs","configurations"],"all models, including ones with shared data variables, and all orders in which generators are discovered",
  "Exchanged generator states still produce plausible random numbers, so sample-based tests cannot see them; no test uses shared data.",
  [G,N,B,F],[("dispersion kernel updates","gibbs.py nbinom_logistic_finder"),("general sampler updates","nuts.py construct_sampler"),("combination","basic.py construct_sampler"),("scan updates","gibbs.py sample_CRT, ffbs.py ffbs_step")])
p("C12","The general sampler targets the transformed joint density and maps values back",
  "The gradient-based step moves all its variables jointly under the joint log-density of the model given the realized values, in the unconstrained space of each variable's default transform including the change-of-variables term; it starts from the forward transform of each variable's current value and returns the backward transform of its own new position, with parameters of a transform evaluated at the variables' values. The step size and the inverse mass matrix it uses are the ones exposed to the user, and a variable without a default transform is left untransformed.",
  ["inputs","programs"],"all models with continuous unobserved variables, current values and sampler parameters",
  "The tests only check that one step changes the state of a few models.",
  [N],[("kernel construction","nuts.py step"),("transforms","nuts.py get_transform, transform_forward, transform_backward"),("wrapping","nuts.py construct_sampler")],)
p("C13","Constructing samplers does not modify the user's model or mappings",
  "Building the internal representation of a model works on a copy of the graph: the user's random variables, their inputs and the mapping of observed variables to values are the same after the call as before it, observed value variables appear as the very same objects in the result, and the returned correspondence links each internal random variable to the user's variable it came from.",
  ["programs","histories"],"all models and repeated constructions from the same model",
  "No test constructs two samplers from one model or compares the model before and after.",
  [R,B],[("copying into the internal representation","rewriting.py construct_ir_fgraph"),("sampler assembly","basic.py construct_sampler")])
p("C14","Broadcast subsumption and its expansion preserve every expression",
  "Folding left-added broadcast dimensions into element-wise operations and expanding them again yields expressions equal to the originals for all inputs, whatever other dimension shuffling the inputs carry; only dimensions added on the left are folded and any remaining permutation is kept. The expansion uses the operation's own inputs rather than copies of them, constants are kept inside, and no folded operation is left in the returned steps.",
  ["programs"],"all element-wise expressions over arbitrarily shuffled inputs",
  "Tests cover four expressions and compare graph shapes, not the equality for all dimension patterns.",
  [R],[("folding","rewriting.py local_elemwise_dimshuffle_subsume"),("folded operation","rewriting.py SubsumingElemwise"),("expansion","rewriting.py inline_SubsumingElemwise")])
p("C15","Prior sampling draws independent joint samples and advances all generators",
  "Sampling from the prior yields the requested number of joint draws of exactly the requested variables in the requested order, with every random generator involved advanced between draws by its own update, and returns the updates that keep later calls independent. Update collection considers every shared variable among the ancestors of the requested variables, prefers a variable's own default update, falls back to the one recorded by the stream, ignores everything else, and rejects conflicting ones.",
  ["programs","inputs"],"all models, numbers of draws and ways of creating generators",
  "One test with one hierarchical model; missing updates for generators of other kinds of models would repeat draws.",
  [S,U],[("scan over draws","sample.py sample_prior"),("update collection","utils.py get_rv_updates")])
p("C16","Model summaries are consistent partitions with unique names",
  "A model summary's value-to-variable map is the inverse of the given variable-to-value map; unobserved variables are exactly the keys that are not observed, in the given order; observed and unobserved values are aligned with their variables; and the name map covers every variable, deterministic variable and value. Construction fails with a value error whenever any of them lacks a name or two of them share one.",
  ["inputs"],"all sets of observed, unobserved and deterministic variables and their names",
  "Tests use one model and two malformed ones.",
  [U],[("summary construction","utils.py ModelInfo.__post_init__")])
p("C17","Sampling kernels are closed over exactly their non-constant inputs",
  "Each sampling kernel is an operation whose inner computation is in-lined when compiled and whose inputs are the non-constant, non-shared quantities that its outputs depend on, so that applying it to values reproduces the step; it is applied to the same quantities, in the same order, that it was defined with. A kernel's first output is the new value of the variable that it is reported for.",
  ["programs"],"all matched models, with constant or symbolic parameters",
  "Tests use symbolic parameters almost everywhere; constants, swapped arguments of equal type or omitted inputs show up only for other models.",
  [G,N,T,U],[("kernel base class","types.py SamplingStep"),("kernel construction","gibbs.py finders, nuts.py construct_sampler"),("constant removal","utils.py remove_constants")])
p("C18","Distribution relations hold as identities between distributions",
  "The location-scale relation holds for exactly the registered location-scale families and relates a variable with location m and scale s to m + s times a variable of the same family with location 0 and scale 1, of the same size, dtype and generator; the inverse-gamma relation relates an inverse gamma variable with shape one and scale c to the reciprocal of an exponential variable with rate c. Both directions of each relation describe the same distribution.",
  ["programs","inputs"],"all parameters, sizes and families",
  "Tests check three concrete terms, one of which encodes the wrong parameterisation.",
  [X],[("location-scale relation","transforms.py location_scale_transform"),("inverse-gamma relation","transforms.py invgamma_exponential")])
p("C19","Every specialised sampler is reachable from ordinary sampler construction",
  "Importing the package registers every specialised sampler for the kind of random variable it recognises, in the collections that sampler construction queries, before those collections are queried. Canonicalisation and broadcast folding happen when the internal representation is built, sampler discovery happens next, and expansion of the folded operations comes last.",
  ["configurations","programs"],"all import orders of the public package and all models",
  "A sampler that silently drops out is replaced by the general one, so that tests of most models still pass.",
  [R,C,G,I,B],[("rewrite databases","rewriting.py sampler_ir_db, sampler_finder_db, sampler_rewrites_db"),("registration","conjugates.py, gibbs.py module level"),("package import","__init__.py")])
p("C20","Sampler construction is deterministic",
  "The structure of everything that sampler construction returns (which step each variable gets, the order of steps, the order of variables in the joint update and hence in its mass matrix) is a function of the model alone, and never depends on hash or memory-address order of a set, or on other process state.",
  ["programs","schedules"],"all models and all hash seeds and memory layouts",
  "A test runs with one hash seed and mostly single-variable joint updates.",
  [B,N,R,U,T],[("ordering of remaining variables","basic.py construct_sampler"),("iteration over collections","all modules")])
p("C21","The Polya-Gamma variable draws PG(h, z) from the generator it is given",
  "The Polya-Gamma random variable is a scalar-support variable with two scalar parameters, h and z in this order with defaults 1 and 0, whose draws use exactly those parameters, the requested size and the generator state it was given, for both kinds of generators, and come back in the configured floating point type.",
  ["inputs","configurations"],"all parameters, sizes, generator kinds and float settings",
  "One test checks two means with the default generator.",
  [D],[("random variable","dists.py PolyaGammaRV")])
p("C22","Sampler records list the stages in scan order with their variables",
  "The sampler record groups the updated variables by the kernel that computes them, lists each variable exactly once under its own kernel, and orders kernels and variables in the order in which the updates are performed. Updates, parameters and steps are stored as given, with empty mappings by default that are not shared between records.",
  ["programs"],"all samplers",
  "Tests check the number of stages for a few samplers.",
  [T,B],[("record","types.py Sampler"),("scan order","basic.py construct_sampler")])
p("C23","Sampler discovery considers each variable once and records steps faithfully",
  "During discovery each specialised sampler runs at most once for each random variable of a model to which a tracker is attached, with that tracker's random stream, and each step it offers is recorded with its updates under the variable it updates, unless that variable also directly informs random variables other than the one the step was derived from. Discovery never changes the model being searched, does nothing for a model without a tracker, and does not attach two trackers to one model.",
  ["programs","histories"],"all models, rewriting orders and repeated passes",
  "Rewriting passes revisit nodes in an order the tests do not control, and no test has a variable with two random children.",
  [R],[("tracker","rewriting.py SamplerTracker"),("finder decorator","rewriting.py sampler_finder"),("children search","rewriting.py get_measurable_children")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
