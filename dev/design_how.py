"""How each property is decided."""

HOW = {}


def H(text):
  for part in text.strip().split('\n\n'):
    i, how = part.split(' ', 1)
    HOW[i] = how


H('''
B01 The three `run` methods (with helpers inlined) are evaluated on a bandit with a symbolic list of arms. For a generic arm, the error level of every `update` event, before the loop and in one round from an arbitrary state, must be the term error_prob / number of arms. Events on arms other than `update` (and `reset` at the start) are violations.

B02 The histories are families of lists. At the loop head their contents are arbitrary; after one round each must be the old list with exactly one entry appended, equal to cost times the bound or estimate of the arm in the state at the end of the round, for a generic arm (updated or not). The keys must be the bandit's arms.

B03 As B02 for `samples_by_arm`; for `cum_samples` the appended value must equal the previous total plus the sum over the arms of the entries of this round, both as closed forms of the loop sums. The invariant that the running total is the last entry is established before the loop and preserved by a round.

B04 The loop exits are collected with their path conditions (loop test, `break`, `return`). From each exit condition it must follow that the total exceeds the limit or that the confidence rule of the reference holds; from every path that starts a round it must follow that the limit is not exceeded. Entailment is implication between decision diagrams. With `sample_limit=None` only the confidence exits remain.

B05 The stopping condition is extracted as the condition of the confidence exit as a function of the arms' state, and must be equivalent to `stop_condition` of the reference, with the returned list equal to the reference list.

B06 The candidate list after a round from an arbitrary candidate list must be the filter of the reference: arms whose lower bound is below the least upper bound, or which have the lowest estimate. Equality of filters over the same index domain.

B07 The arms that LUCB updates in a round are the elements of the pair that `select_arms` returns. Membership facts attached to `numpy.random.choice` of a filtered sequence show that the first has the lowest upper-bound estimate (the leader), and the second is of the lowest lower bound among the others, and that they differ, on every path including ties and missing bounds.

B08 At the exits by the limit the returned list must be the reference list: candidates of minimal cost-scaled estimate.

B09 The arguments of the `update` events of a generic arm: the data is one `generate(units_per_round)` of the model, drawn once per round (or once per arm where the algorithm says so), arms that are not selected are not updated, and the number recorded equals the number drawn.

B10 The constructors are evaluated with symbolic parameters; the disjunction of the path conditions of the exceptions must be equivalent to the reference condition, and the attributes must hold the given values otherwise.

B11 The heap before and after a run is compared for the bandit and the given list, and the effect log must have no write to the model or the list.

D01 Every column of every fold is read as a selection of rows by a labelling (`rows.py`). For k = 1, 2, 3 and a symbolic k: the selections of the columns of a fold are the same; the labelling is a permutation of a sequence in which label counts differ by at most one (`mod(arange(n), k)`, `array_split`, and so on); the k folds take every label once.

D02 As D01: both parts select by one random mask and its negation, the mask has a probability of p for each unit, and all columns follow it. p outside [0, 1] must raise.

D03 Each concatenation is an extra path on which NumPy raises; on every exceptional exit the heap of the data set must be what it was; on the normal exit each column is old followed by new and a missing column is rejected.

D04 Terms of all the columns of the results of indexing and of the transformers, against reference functions; the set of coordinates is symbolic.

D05 Two fits in sequence, and any number of further ones, then every query: no symbol of earlier data may occur in any result. The queries are compared with the state before and after, the prediction with the lookup in the table, the supports with the distinct keys of the data.

D06 The ownership analysis computes for every function the parameters (and what is reachable from them) whose storage it may modify in place, through aliases, views, attributes, closures and calls. A function of the API that modifies what it was given is a violation; what a helper modifies counts where it is called.

D07 `fit` is evaluated for every table of counts with a symbolic ratio, over values whose bytes are only known to be different; the predictions are terms in the ratio with the gates of the maximum. Three large tables (up to 400 units, 130 values of z or 40 of x) are evaluated at fixed ratios. They are compared at, and on both sides of, each ratio where a frequency equals the least probability.

D08 The generated columns are terms over draws; they must equal those of a reference sampler with the same distributions, in which parameters and shapes are those of the documentation.

P01 The result of each score is scanned for divisors; each must be bounded away from zero by the overlap, by interval arithmetic with 0 < min_overlap <= 1/2 and the range of clipped probabilities.

P02 The score is a polynomial over the uninterpreted predictions of the fitted models at the covariates of the unit; it must be the reference influence function. The training data of every model is part of the prediction's term, so that a model fitted to the wrong group or columns differs.

P03 As P02 for the front-door formula, with sums over the support of the covariates and over the exposures.

P04 As P02 for the linear estimators; selections of rows by a mask are compared as masks.

P05 Sequences of fits with enough and too little data, in both orders. The condition under which models are fitted must be the reference predicate; `has_enough_samples` and `has_been_fit` must agree with it, and scores before a fit are NaN or an exception. A last fit comes after any number of others.

P06 Fit, reset, fit, and the same after any number of such cycles, is compared with the fit of a new object on the same data: same terms for scores and state. The hyperparameters are compared before and after.

P07 The exits with exceptions of every method that takes data are collected: data of another dimension must raise, and the heap at the exception must be that at the call.

P08 The calls on `eta` in the arms are resolved to the methods of each estimator class; each must have a body that is not a stub, and accept the arguments of the call.

P10 The width is a term over the data matrix; it must equal the reference formula.

P11 After `set_to_truth` the coefficients that the predictions use must be the reference vectors.

P12 The objects reachable from the estimator, the data and the caller's arrays are compared before and after each query, and no draw may happen.

A01 Histories of updates with symbolic data: for every score that contributes to an estimate, the labelling of the rows of the training data and of the scored rows must be disjoint selections of the same labelling. The state of the (opaque) estimator is tracked as a term, so that a fit on more data than intended is seen.

A02 The rows of the splits after each update must be exactly those given so far: a multiset equation of selections over all the updates, with case splits on empty folds.

A03 The interval after each update must equal the formula of the reference for the algorithm of the arm, in the number of scored units, the number of updates, the level, the scores and the options; extrema are settled by interval bounds.

A04 Each end of the interval is a term in delta; the monotonicity analysis shows that the lower end rises and the upper end falls with delta, that lower <= upper, and that the lower end is not negative where the algorithm says so.

A05 Under the path condition that the estimator lacks data, the interval, the estimate and `var_est` must be the trivial ones.

A06 All exits of `update` with an exception: the condition covers delta outside (0, 1), and the state at the exception is that at the call.

A08 A reset arm and a new arm (with the same estimator, reset) get the same symbolic update; all attributes and results must be the same terms.

A09 `ate` and `var_est` must equal the mean and the mean squared deviation of the scores of the held-out rows, with the reference formula.

A10 The counter after each update of a symbolic history; at an exception it must be unchanged. Assignments to read-only properties raise.

A11 The list of bootstrap variances is a map over the rounds, whose body is compared with the reference; the ends are percentiles of this list at the reference levels.

S01 `generate` is evaluated on every acyclic graph of up to four variables, with unknown (logged) mechanisms: each is called once, after its parents, with the number of units and the samples of its own parents in their order; the columns of the result are those of the named variables. Small graphs are sampled again, and after any number of further samples.

S02 Malformed models (wrong keys, cycles in the order, unknown names, wrong roles) must raise in the constructor or in `generate`, well-formed ones must not; decided on graphs of up to four variables.

S03 As S01 with the treatment set: its mechanism is not called, the others get the set value, the effect is the difference of the means of the response under 1 and 0. Each call of a mechanism may raise; the model after every exit must be as before.

S04 Each function on one to three (four) symbolic parents against references from their documentation. The noise is one draw per unit.

S05 The sample of a generic unit must be the draw of the distribution with the index of its own category, given its other parents; the caller's lists stay as they are.

S06 The mechanisms give, for every combination of binary parents, a Bernoulli probability or the mean and variance of a normal variable (for two units with different parents, so that a mechanism that mixes units shows). Moments follow by exact summation over the ancestors, as polynomials in the parameters, and must equal what is reported.

U01 The example is built with symbolic costs; the transformer of each arm is applied to data with symbolic columns and must choose the columns of the variables that its name lists; cost and number of features follow.

U02 The parents of the built model against the graph of the paper; the adjustment sets of the arms against the back-door and front-door criteria by d-separation on the graph of the model.

U03 The constructors of the bandits and arms record their arguments; identity of lists, models, options, and pairwise difference of the estimators.

U04 Each draw records its generator; while the mechanisms are made it must be one that is made from the seed (and never, on any path, without one), while sampling it must be the global one. Writes during sampling are violations.

U05 Every mechanism is evaluated at symbolic parents and decomposed into one summand for each parent and a noise draw; each summand must depend on its own parent and coefficients only. The distribution of Z_0 is read from the choice of indices.

U06 The returned function and what it closes over against a reference construction: kernel, grid, prior sample, fit, prediction, shape.

R01 Lint over the resolved tree: calls of randomness sources other than the global NumPy generator or one made from a seed, `np.random.seed` and the like, draws that the call graph reaches at import, state in module globals, class attributes and defaults, and iteration over sets that escapes.

O01 Two objects of every class are made of different things in one heap, which also holds the values that importing the modules computes (module globals, class attributes, defaults). The first is used; the state of the second, what its public class attributes hold, and what all its methods then return are compared with those before, and a third one is compared part by part with the second when it was new.

V01 Every call on the axes is recorded for up to three (five) and for twelve arms with symbolic histories, and compared with the list of the reference.

V02 The arrays given to plot_surface are followed back, cell by cell, through reshapes, stackings and the grid to the limits and to one call of f, and each of the 10 000 heights is compared with f of its own point.
''')
