"""The properties and the checks; mkdocs.py writes the JSON files from it."""

TECH = ('static analysis: gated value numbering (abstract interpretation over a '
        'term domain, joins at merges) ')
TRUST = ('Trusts the analysis engine (sa/terms.py, interp.py, lib.py: its models '
         'of Python, NumPy, SciPy and pandas calls) and real-number arithmetic '
         'in place of floating point.')

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note):
  PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                    quant=quant, why=why, files=files, mech=mech,
                    technique=technique, note=note))


BF = ['causal_effect_bandits/bandits.py']
BQ = ('every list of arms, every state the arms can be in, every data source, '
      'and every number of rounds')

P('B01', 'The error probability is split evenly over all the arms',
  'Whenever a bandit algorithm gives an arm new data, it passes as the error '
  'level the error probability of the bandit divided by the number of all its '
  'arms, also after arms have been eliminated. The arms change during a run '
  'only by being given data.',
  ['inputs', 'histories'], BQ,
  'The tests run a few rounds with two or three arms and look at the result; a '
  'level that is wrong after an elimination, or by a factor, goes unseen.',
  BF, [('run loops', 'bandits.py: UniformAlgorithm.run, LUCBAlgorithm.run, '
        'SuccessiveEliminationAlgorithm.run')],
  TECH + 'of the state of a generic arm around the run loop',
  'Inductive over the rounds: decided for the piece before the loop and for one '
  'round from an arbitrary state.')

P('B02', 'Bandit histories hold one cost-scaled entry per arm and round',
  'The histories of lower bounds, upper bounds and variance estimates that a '
  'run returns are keyed by all the arms and get exactly one entry per arm and '
  'round, also for arms that were not updated. The entry is the value that the '
  'arm reports at the end of that round, times the cost of the arm; the sample '
  'histories grow in the same rounds.',
  ['inputs', 'histories'], BQ,
  'The tests check the final arm and a few lengths; they cannot check the '
  'alignment of all the histories for all runs.',
  BF, [('history lists', 'bandits.py: the run methods, BanditData')],
  TECH + 'with an inductive comparison of the loop state with reference values',
  'Inductive over the rounds, for a generic arm.')

P('B03', 'Sample accounting of a bandit run is exact',
  'In every round the number of samples recorded for an arm is the number of '
  'units per round if the arm was given data in that round and 0 if it was not. '
  'The cumulative number of samples after a round is the previous one plus the '
  'sum over the arms of the samples of that round.',
  ['inputs', 'histories'], BQ,
  'The tests compare the totals of some short runs; a miscount that needs an '
  'elimination or a certain pair of arms is out of their reach.',
  BF, [('samples_by_arm, cum_samples', 'bandits.py: the run methods')],
  TECH + 'with an inductive invariant for the running total and a symbolic sum '
  'over the arms',
  'Inductive over the rounds; assumes that the arms of a bandit are distinct '
  'objects and that LUCB selects two of them (B07).')

P('B04', 'The sample limit ends a run, and only it or the confidence does',
  'No round of a bandit run starts once the cumulative number of samples '
  'exceeds the sample limit. A run ends only when the limit is exceeded or when '
  'the confidence condition of the algorithm holds; without a limit (None) only '
  'the confidence condition ends it.',
  ['inputs', 'histories'], BQ,
  'The tests use a couple of limits; whether any run can overrun or stop early '
  'is a statement about all of them.',
  BF, [('limit check', 'bandits.py: the run methods')],
  TECH + 'with entailment between the path conditions of the loop exits and the '
  'stopping rules',
  'That a run does end (almost surely) is not claimed.')

P('B05', 'Uniform and LUCB stop exactly at the fixed-confidence condition',
  'Within its sample limit a uniform or LUCB run ends after a round exactly if '
  'no upper bound is infinite, no variance estimate is NaN, and the upper bound '
  'of the arm with the lowest cost-scaled variance estimate is below the lowest '
  'lower bound of the other arms plus the error tolerance. It then returns that '
  'arm as the only best arm.',
  ['inputs', 'histories'], BQ,
  'The tests call the end condition on a few triples of bounds; the rule '
  'quantifies over all bounds, costs and tolerances.',
  BF, [('end condition',
        'bandits.py: BAIBanditAlgorithm._check_fixed_conf_end_condition')],
  TECH + 'with equality and entailment against a reference rule',
  'The statistical meaning of the condition is not claimed (see '
  'not_applicable).')

P('B06', 'Successive elimination drops exactly the provably worse arms',
  'Successive elimination starts with all the arms and updates exactly the '
  'remaining candidates in every round. After a round it keeps exactly the '
  'candidates that have the lowest cost-scaled variance estimate or whose lower '
  'bound is below the lowest upper bound of those, so an eliminated arm never '
  'comes back. It goes on only with at least two candidates and returns those '
  'that remain.',
  ['inputs', 'histories'], BQ,
  'The tests eliminate arms in one or two configurations of bounds.',
  BF, [('elimination', 'bandits.py: SuccessiveEliminationAlgorithm.run')],
  TECH + 'of the candidate list across one round from an arbitrary state',
  'Inductive over the rounds.')

P('B07', 'LUCB samples the leader and the strongest challenger',
  'In every round after the first LUCB updates exactly two different arms: one '
  'with the highest upper bound among those with the lowest cost-scaled '
  'variance estimate, and one with the lowest lower bound among the others. Only '
  'when the estimates do not rank the arms (missing, NaN or all tied) are the '
  'two different arms drawn at random.',
  ['inputs', 'histories'], BQ,
  'The tests pin one or two sets of bounds; ties and NaN need particular '
  'states.',
  BF, [('arm selection', 'bandits.py: LUCBAlgorithm.select_arms')],
  TECH + 'with membership facts for random choices from filtered sequences',
  'numpy.random.choice is trusted to return elements of its argument, without '
  'repetition if replace=False.')

P('B08', 'A run that exceeds its limit returns the arms of lowest variance',
  'A run that ends because its sample limit is exceeded returns exactly the '
  'arms with the lowest cost-scaled variance estimate; for successive '
  'elimination, of the arms not yet eliminated.',
  ['inputs', 'histories'], BQ,
  'The tests look at runs in which one arm wins clearly.',
  BF, [('budget exit', 'bandits.py: the run methods, _select_arms_with_mask')],
  TECH + 'of the returned list at the budget exits against a reference list',
  'For arbitrary estimates, ties included; NaN estimates are not ordered.')

P('B09', 'Every update gets the right batch of samples',
  'When a run is given data, an update of an arm gets the next units-per-round '
  'units after those that the arm has already received, so that the sequence an '
  'arm sees does not depend on the algorithm, and nothing is generated. '
  'Otherwise it gets a batch of that many units generated in the same round. No '
  'arm is updated twice in a round.',
  ['inputs', 'histories'], BQ,
  'The tests do not look at the batches that the arms get.',
  BF, [('batch selection', 'bandits.py: the run methods')],
  TECH + 'of the arguments of every update of a generic arm',
  'For the first round and the uniform algorithm: arms that start fresh or '
  'reset.')

P('B10', 'A bandit refuses invalid parameters and keeps valid ones',
  'Constructing a bandit raises a ValueError exactly if the error probability '
  'is not strictly between 0 and 1, the error tolerance is negative, the '
  'confidence is given and not strictly between 0 and 1, or neither confidence '
  'nor sample limit is given. Otherwise the bandit uses the parameters as '
  'given, with no limit for a sample limit of None.',
  ['inputs', 'configurations'], 'all numeric parameter values, and None',
  'No test constructs a bandit with invalid parameters.',
  BF, [('validation', 'bandits.py: BAIBanditAlgorithm.__init__')],
  TECH + 'with equality of the raising condition and a reference condition',
  'Complete for numeric parameters; NaN parameters are not considered.')

P('B11', 'A run leaves bandit, arm list and given data as they were',
  'Running an algorithm changes nothing of the bandit itself, of the list of '
  'arms or of the data that it was given: only the arms are updated. Resetting '
  'the bandit resets every one of its arms and changes nothing else.',
  ['inputs', 'histories'], BQ,
  'The tests run each bandit once.',
  BF, [('run, reset', 'bandits.py: BAIBanditAlgorithm.reset, the run methods')],
  TECH + 'with a comparison of the heap before and after, and an effect log',
  'For all states of the arms.')

DF = ['causal_effect_bandits/data.py']
DQ = 'every data set, with or without exposures and responses'

P('D01', 'k_fold puts every unit in exactly one of k balanced folds',
  'k_fold(k) returns k data sets. Every unit of the data is in exactly one of '
  'them, as a whole: its covariates, exposure and response are in the same fold '
  'at the same position. The sizes of the folds differ by at most one, columns '
  'that are absent (None) stay absent, and the data is not changed. A number of '
  'folds below 1 is rejected.',
  ['inputs'], DQ + ', every number of folds, every permutation',
  'The test checks sizes for one k; a unit that is lost, duplicated or mixed '
  'with another one only for some number of units needs the general statement.',
  DF, [('k_fold', 'data.py: ExpData.k_fold')],
  TECH + 'with an analysis of the row selections (masks) of every column',
  'Decided for k = 1, 2, 3 and for a symbolic k; all numbers of units.')

P('D02', 'subsample splits the units into two complementary random parts',
  'subsample(p) returns two data sets; every unit is in exactly one of them, as '
  'a whole row of covariates, exposure and response, independently with '
  'probability p in the first. Absent columns stay absent, the data is not '
  'changed, and p outside of [0, 1] is rejected.',
  ['inputs'], DQ + ', every p',
  'The tests check sizes for one p with all the columns present.',
  DF, [('subsample', 'data.py: ExpData.subsample')],
  TECH + 'with an analysis of the row selections (masks) of every column',
  'For a symbolic p and a symbolic number of units.')

P('D03', 'append keeps the columns aligned and is all-or-nothing',
  'append puts the new units below the old ones in every present column and '
  'updates the number of units; the appended data is not changed. Data with '
  'another number of features, or without a column that is present, is rejected '
  'with a ValueError, and whenever append raises the data is as it was before.',
  ['inputs', 'histories'], DQ + ', appended to every data set; every point at '
  'which an exception can be raised',
  'The tests append once; misalignment after a rejected append needs a sequence '
  'of operations.',
  DF, [('append', 'data.py: ExpData.append')],
  TECH + 'with implicit exceptions of array operations as extra paths',
  'Exceptions of NumPy calls are assumed possible at each concatenation.')

P('D04', 'Selecting and transforming keep the columns of a unit together',
  'Indexing a data set selects the same rows of every present column. The data '
  'transformers return a data set with exactly the stated columns of the '
  'covariates and with the exposures and responses of their argument, which '
  'they leave unchanged; a single remaining covariate stays a column where that '
  'is documented. The length and the number of features of a data set are '
  'those of its covariates.',
  ['inputs'], DQ + ', every key and every coordinate',
  'The tests use one index and one shape.',
  DF, [('__getitem__, transformers', 'data.py: ExpData.__init__, __len__, '
        '__getitem__, get_identity_fn, get_remove_coordinates_fn, '
        'get_coordinate_mask_fn')],
  TECH + 'and comparison with reference functions',
  'The set of coordinates is symbolic.')

P('D05', 'A tabular distribution is that of the data it was last fitted to',
  'After fitting a TabularCPD again, its predictions, its supports, its sizes '
  'and its marginals depend on the data of that last fit only. Predicting, '
  'asking for the supports or printing changes nothing. A prediction is the '
  'table entry of each queried pair, in the order of the queries, and 0 for a '
  'pair that was not seen. Observations of different lengths are rejected.',
  ['inputs', 'histories'], 'every sequence of fits and queries with every data '
  'set',
  'The test fits once and predicts the pairs it fitted.',
  DF, [('TabularCPD', 'data.py: TabularCPD.fit, predict, x_support, z_support, '
        'support_size')],
  TECH + 'of two successive fits and of each query in the fitted state',
  'The probabilities themselves are decided by D07.')

P('D06', 'Nothing modifies the data, models or settings that it is given',
  'No function of the library modifies an argument in place: arrays, data sets, '
  'lists and dictionaries that a caller passes come back as they were. Objects '
  'do not modify in place what their user gave to their constructor either, and '
  'no function modifies module-level values. (Fitting the sklearn models that '
  'an estimator was given, updating arms, and appending to a data set that '
  'belongs to the object are the documented exceptions.)',
  ['inputs', 'histories'], 'every call of every function of the library',
  'A test would have to compare every argument before and after each call; '
  'aliasing shows only when an object is used again later.',
  DF + ['causal_effect_bandits/' + x + '.py' for x in (
      'arms', 'bandits', 'parameters', 'scm', 'example_scm', 'paper_utils',
      'nonlinear_utils')],
  [('all functions', 'all modules')],
  'static analysis: flow-sensitive interprocedural ownership (alias) analysis '
  'of in-place modifications',
  'An over-approximation of aliasing; objects of other libraries are assumed '
  'not to modify their arguments.')

P('D07', 'The rows of a TabularCPD are smoothed frequencies that sum to one',
  'After a fit with a ratio of at least one, the probabilities of all the seen z '
  'given any seen x sum to one, and none is less than one over the number of seen '
  'z and the ratio. They are the frequencies if these are all as large as that, '
  'and are always in the order of the frequencies. The marginal of x is its '
  'frequency. The order of the units does not matter.',
  ['inputs'], 'every data set and every ratio of at least one',
  'The test fits one data set whose frequencies need no or little smoothing; rows '
  'that fail to sum to one need particular counts and ratios.',
  DF, [('TabularCPD', 'data.py: TabularCPD.fit, predict')],
  TECH + 'of a fit for every table of counts, with the ratio as a symbol; the terms '
  'of the probabilities are compared at ratios on both sides of, and at, every '
  'ratio where a frequency is as large as the least probability',
  'The tables of counts are bounded (five units, or seven in thorough mode, '
  'and three large tables).')

P('D08', 'The linear data generator samples from its documented model',
  'LinearDataGenerator.generate(n) returns n standard normal covariate rows, '
  'treatments that are Bernoulli with the sigmoid of x.gamma for the same unit, '
  'and responses x.beta + tau * t + noise for the same unit. A gamma, or noise, '
  'of the wrong length is rejected. Without gamma, treatments do not depend on '
  'the covariates. Generating changes nothing of the generator, and tau, beta '
  'and gamma are those that were given.',
  ['inputs'], 'every coefficient vector, noise model and number of units',
  'The test compares moments of one sample, loosely.',
  DF, [('LinearDataGenerator', 'data.py: LinearDataGenerator, DataGenerator')],
  TECH + 'and comparison of the sampled terms with a reference sampler',
  'The random number generators of NumPy are trusted.')

PF = ['causal_effect_bandits/parameters.py']
PQ = ('every estimator of the library, all data, all hyperparameters and all '
      'fitted models')

P('P01', 'Inverse weights in the scores are bounded by the overlap',
  'In the scores of the AIPW and front-door estimators, every estimated '
  'probability (and one minus it) by which something is divided is at least '
  'min_overlap: the propensities and the conditional probabilities of the '
  'mediator are clipped to [min_overlap, 1 - min_overlap] before they are used.',
  ['inputs'], PQ,
  'The tests use well-behaved propensities, for which clipping changes nothing.',
  PF, [('scores', 'parameters.py: transform and calculate_score of AIPW and '
        'FrontDoorLinearFiniteZ')],
  TECH + 'of the scores and interval bounds of each divisor in the result',
  'Assumes 0 < min_overlap <= 1/2. Fitted models are uninterpreted functions of '
  'the data they were fitted to.')

P('P02', 'AIPW scores are the efficient influence function of the fitted models',
  'The score that an AIPW estimator gives a unit (X, Z, Y) of the scored data is '
  'mu(1, Z) - mu(0, Z) + (Y - mu(X, Z)) (X / e(Z) - (1 - X) / (1 - e(Z))), where '
  'mu is the response model fitted to the responses given exposure and '
  'covariates, and e the clipped propensity model fitted to the exposures given '
  'the covariates, both of the data fitted last.',
  ['inputs'], PQ,
  'The tests check the mean of the scores in one or two models, up to a '
  'tolerance; a wrong weight or a wrong group often leaves the mean unchanged.',
  PF, [('AIPW', 'parameters.py: AIPW.fit, transform, calculate_score and the '
        'subclasses')],
  TECH + 'and comparison with a reference formula, over uninterpreted models',
  'The formula is compared up to the algebra of polynomials, quotients and '
  'elementwise array operations.')

P('P03', 'Front-door scores are the influence function of the fitted models',
  'The score that the front-door estimator gives a unit is the influence '
  'function of the front-door functional for the linear response model and the '
  'distribution of the mediator and the treatment fitted to the last data: the '
  'sums over the mediator and over both treatments use the fitted tables, in a '
  'matching order.',
  ['inputs'], 'all data, all hyperparameters and all fitted models',
  'The test compares the mean of the scores with the effect in one model.',
  PF, [('FrontDoorLinearFiniteZ', 'parameters.py: FrontDoorLinearFiniteZ.fit, '
        'calculate_score')],
  TECH + 'and comparison with a reference formula, over uninterpreted models',
  'The tabular distributions are decided separately (D05).')

P('P04', 'Linear estimators score with the models of the right groups',
  'The linear estimators for a binary treatment give a unit the difference of the '
  'predictions at its covariates of the model fitted to the treated units and the '
  'model fitted to the others, each with its own responses. The linear regression '
  'estimator gives the treatment component of the regularised least-squares '
  'solution, with the exposure as the first column.',
  ['inputs'], PQ,
  'The tests look at the mean of the scores in one linear model.',
  PF, [('linear estimators', 'parameters.py: LinearParameterBinaryTreatment, '
        'LinearRegressionParameter')],
  TECH + 'and comparison with a reference formula, over uninterpreted models',
  'Selections of rows by a mask are compared as masks.')

P('P05', 'Estimators report and use a fit exactly when the data suffices',
  'A new estimator has not been fitted. After a fit, has_enough_samples is true '
  'exactly if the data suffices (enough units with and without treatment for '
  'AIPW and front-door estimators, some of both for the linear one with a binary '
  'treatment, at least one unit for the linear regression). Fits that '
  'suffice replace the models of earlier fits completely. Estimators that have '
  'not been fitted give every unit of data of their dimension the score NaN (the '
  'linear regression zero) and raise no exception.',
  ['inputs', 'histories'], PQ + ', over sequences of up to two fits',
  'The tests fit once with ample data.',
  PF, [('has_enough_samples', 'parameters.py: fit, has_enough_samples, '
        'calculate_score')],
  TECH + 'of sequences of fits, with the condition for a fit compared to a '
  'reference predicate',
  'What has_enough_samples says when sufficient data is followed by data that '
  'does not suffice is not specified. The linear regression estimator is exempt '
  'from the rule about NaN scores.')

P('P06', 'A reset estimator is as good as new and keeps its hyperparameters',
  'After reset an estimator is not fitted and holds no data, and fitting it '
  'again gives the conditions, exceptions and scores of a new estimator with '
  'the same hyperparameters and unfitted models.',
  ['histories'], PQ + ', after one or two fits',
  'The tests never reset an estimator after fitting it.',
  PF, [('reset', 'parameters.py: reset of all estimators')],
  TECH + 'of a fit after a reset against a fit of a new object',
  'sklearn.clone is assumed to give an unfitted model with the same parameters.')

P('P07', 'Data of the wrong dimension is rejected and changes nothing',
  'The AIPW, front-door and binary-treatment linear estimators raise ValueError '
  'from fit exactly when the number of covariates is not the one they were built '
  'for, and then their models, their data and their status are as before. A '
  'fitted estimator does not score such data either.',
  ['inputs', 'histories'], PQ,
  'The tests use matching data only.',
  PF, [('fit', 'parameters.py: fit, calculate_score')],
  TECH + 'with the state at every exception compared to the state at the call',
  'For first and second fits.')

P('P08', 'Arms call only methods that every estimator implements',
  'Every method that an arm calls on its estimator is implemented by every '
  'estimator of the library with a matching signature; none is a stub that '
  'silently returns None.',
  ['inputs'], 'every call on an estimator in arms.py and every estimator',
  'The tests combine few arms with few estimators.',
  PF + ['causal_effect_bandits/arms.py'],
  [('interface', 'arms.py: calls on the estimator; parameters.py: the classes')],
  'static analysis: resolution of the method calls on estimators and a '
  'stub/arity check of each target',
  'Known finding: calculate_cs_width of the linear estimators is a stub.')

P('P10', 'Confidence-sequence widths follow their formula',
  'calculate_cs_width of the AIPW and front-door estimators is, for the data '
  'fitted last, the width of the self-normalised bound for the regression '
  'estimate (infinite where the bound does not apply), times the factor for '
  'the overlap, and it is defined for all data that was fitted.',
  ['inputs'], PQ + ', every error level and every pair of constants',
  'The tests do not call it with any known value.',
  PF, [('calculate_cs_width', 'parameters.py: AIPW.calculate_cs_width, '
        'FrontDoorLinearFiniteZ.calculate_cs_width')],
  TECH + 'and comparison with a reference formula',
  'That the formula is a valid bound is a theorem outside the code. Determinants '
  'and eigenvalues are uninterpreted.')

P('P11', 'set_to_truth installs the true coefficients',
  'set_to_truth with a linear data generator sets the coefficients of the models '
  'to the tau, beta and gamma of the generator, in the order of the columns that '
  'the models are fitted to, with zero intercepts for the linear estimator. AIPW '
  'estimators reject other generators.',
  ['inputs'], 'every linear data generator',
  'No test compares the coefficients.',
  PF, [('set_to_truth', 'parameters.py: AIPW.set_to_truth, '
        'LinearParameterBinaryTreatment.set_to_truth')],
  TECH + 'and comparison of the coefficients with reference vectors',
  'The estimators that inherit a set_to_truth without a body are not covered.')

P('P12', 'Using an estimator changes neither it nor the data',
  'Scoring data, asking for the width or for has_enough_samples leaves the '
  'estimator, its models and the data as they were, also when an exception is '
  'raised, and later scores do not depend on it. Fitting leaves the data as it '
  'was, and recent_data is the data that was fitted last.',
  ['inputs', 'histories'], PQ + ', before and after a fit',
  'The tests do not use an estimator twice.',
  PF, [('state', 'parameters.py: all methods but fit, reset and set_to_truth')],
  TECH + 'with the objects reachable from the estimator compared before and '
  'after each call',
  'The models of sklearn are assumed not to change when they predict.')

AF = ['causal_effect_bandits/arms.py']
AQ = ('every concrete arm and option, all data, and every history of up to {} '
      'updates')

P('A01', 'Scores never come from an estimator trained on the scored units',
  'The units whose scores enter the estimate, the variance and the interval of '
  'an arm were not in the data that the estimator which scores them was last '
  'fitted to: the two are disjoint splits, by units and not by columns.',
  ['inputs', 'histories'], AQ.format('four'),
  'Leakage between the splits changes no shape and raises nothing; estimates '
  'only become too good.',
  AF, [('sample splitting', 'arms.py: SampleSplittingArm.update, '
        'BootstrapArm.update')],
  TECH + 'and of the rows of each data set, as selections by a labelling',
  'Histories are bounded; the data of each update is arbitrary.')

P('A02', 'Arms keep every unit they were given, in exactly one split',
  'After each update the fitted and the scored split of an arm together hold '
  'every unit of every update so far exactly once, after the transformation of '
  'the data by the arm; with stable splits no unit ever changes its split; and '
  'get_num_units is the number of units in both splits.',
  ['inputs', 'histories'], AQ.format('four'),
  'Lost or duplicated units show only in comparisons over several updates.',
  AF, [('the splits', 'arms.py: update, get_num_units'),
       ('ExpData', 'data.py: append, k_fold')],
  TECH + 'and of the rows of each data set, as selections by a labelling',
  'Histories are bounded; the data of each update is arbitrary.')

P('A03', 'The interval of each algorithm follows its formula, at every update',
  'The confidence interval of an arm is the chi-squared, normal or finite-sample '
  'interval of the held-out scores at the given error level, with the width of '
  'the estimator at half of the level for the finite-sample one. At update i '
  'the normal interval uses the share 6/(pi i)^2 of the level, so that the '
  'shares of all updates sum to at most the whole. No normal or finite-sample '
  'interval has a negative end, and update returns the interval that it stores.',
  ['inputs', 'histories'], AQ.format('four'),
  'The tests compare no interval with its formula, and none after the first '
  'update.',
  AF, [('intervals', 'arms.py: SampleSplittingArm.update')],
  TECH + 'and comparison with reference formulas',
  'The finite-sample formula is that of the code; the square is of the '
  'documented error spending.')

P('A04', 'A larger error level never widens an interval, and no interval is inverted',
  'As delta grows the lower end of the interval of an arm never falls and the '
  'upper end never rises, and the lower end is at most the upper end.',
  ['inputs'], 'every concrete arm and option, all data and every delta in (0, 1)',
  'A comparison over all pairs of deltas; tests use one or two.',
  AF, [('intervals', 'arms.py: update')],
  TECH + 'followed by a sign and monotonicity analysis of the ends as functions '
  'of delta',
  'Assumes that the roots in the formulas are real, the options positive and '
  'that at least two units are scored. For the bootstrap, order only where the '
  'number of samples depends on delta.')

P('A05', 'Without enough data the interval is [0, inf) and there is no estimate',
  'As long as the estimator of an arm says that there is not enough data, '
  'updates raise nothing, the interval is [0, inf), the estimate is NaN and the '
  'estimate of the variance is infinite, at any update and even if the data had '
  'been enough before.',
  ['inputs', 'histories'], AQ.format('four') + ', for the arms that split the '
  'data',
  'The tests cover the first update of one arm.',
  AF, [('the guard', 'arms.py: SampleSplittingArm.update')],
  TECH + 'under the path condition that there is not enough data',
  'BootstrapArm makes no such distinction and is not covered.')

P('A06', 'Invalid error levels are rejected before anything changes',
  'An update of an arm with a delta outside of the open interval (0, 1) raises '
  'ValueError and leaves the arm, its estimator and the data as they were; no '
  'delta inside of the interval is rejected.',
  ['inputs', 'crash_points'], 'every concrete arm and option, every delta, at the '
  'first and at a later update',
  'No test passes an invalid delta.',
  AF, [('the check of delta', 'arms.py: update')],
  TECH + 'of every exception with the state that it leaves',
  'NaN is not considered.')

P('A08', 'A reset arm behaves as a newly made one',
  'After a reset every value that an arm reports is that of a new arm with the '
  'same options, its estimator has been reset, and every later update reports '
  'what the new arm would report.',
  ['histories'], AQ.format('two') + ' before and after the reset',
  'The tests reset no arm after several updates and then go on.',
  AF, [('reset', 'arms.py: VarianceEstimatorArm.reset, SampleSplittingArm.reset, '
        'BootstrapArm.reset')],
  TECH + 'with a side-by-side comparison of a reset and a new arm',
  'Histories are bounded; a reset estimator is taken to be as good as new, '
  'which is P06.')

P('A09', 'Estimates are the mean and the variance of the held-out scores',
  'ate is the mean and var_est the mean squared deviation of the scores of the '
  'held-out split, made with an estimator that was last fitted to all the data '
  'outside of this split.',
  ['inputs', 'histories'], AQ.format('four'),
  'The tests check estimates within wide tolerances.',
  AF, [('ate, var_est', 'arms.py: update')],
  TECH + 'and comparison with reference formulas',
  'Histories are bounded; the data of each update is arbitrary.')

P('A10', 'Every update of an arm counts as one pull, and rejected ones do not',
  'num_pulled is the number of updates since the arm was made, also of those '
  'with too little data; an update that is rejected because of its delta is not '
  'counted. The name, the cost and the estimator of an arm never change.',
  ['histories'], AQ.format('three'),
  'No test looks at num_pulled after several updates.',
  AF, [('num_pulled', 'arms.py: VarianceEstimatorArm, update')],
  TECH + 'over symbolic histories of updates', 'Histories are bounded.')

P('A11', 'The bootstrap interval is a pair of percentiles of resampled variances',
  'The interval of a bootstrap arm consists of the delta/2 and 1-delta/2 '
  'percentiles of n_bootstraps variances (4/delta, rounded up, when it is 0). '
  'Each one comes from its own random part of the first split: the estimator is '
  'fitted to the part and the rest of the split is scored.',
  ['inputs', 'histories'], AQ.format('four') + ' of the bootstrap arm',
  'The resampling is random; tests cannot tell which units were left out.',
  AF, [('bootstrap', 'arms.py: BootstrapArm.update')],
  TECH + 'with the list of samples as a map over the rounds',
  'Which share of the split a round fits to is taken from the code.')

SF = ['causal_effect_bandits/scm.py']
SQ = ('every number of samples and all mechanisms, on every acyclic graph of up '
      'to four variables')

P('S01', 'An SCM draws each variable once, from its own parents\' samples',
  'SCM.generate calls the mechanism of every variable once, with n_samples and '
  'the list of the samples of its parents in the order of the parents. The data '
  'set it returns has the covariate variables as columns in the given order, and '
  'the samples of the treatment and of the response variable.',
  ['inputs'], SQ,
  'The tests sample a few models and compare moments; a column or a parent in '
  'the wrong place can have the right moments.',
  SF, [('sampling', 'scm.py: SCM.generate')],
  TECH + 'of generate on every acyclic graph of up to four variables, with '
  'unknown mechanisms, against a reference sampler',
  'The graphs are enumerated (two to four variables, the parents before the '
  'children, different orders of parents and roles); the mechanisms are unknown '
  'functions.')

P('S02', 'An SCM rejects malformed models',
  'The constructor raises ValueError if a variable has no entry in parents or in '
  'cpds, or if the treatment, the response or a covariate is not a variable, and '
  'accepts every other model. SCM.generate raises ValueError exactly if a '
  'variable comes before one of its parents, or has a parent that is not a '
  'variable. A rejected generate changes nothing of the model.',
  ['inputs'], 'every model with one such fault, and none, of up to four variables',
  'The tests try some of the rejections and none of the acceptances.',
  SF, [('validation', 'scm.py: SCM.__init__, SCM.generate')],
  TECH + 'of the constructor and generate, with the conditions of their '
  'exceptions',
  'Bounded to models of up to four variables.')

P('S03', 'The treatment effect of an SCM is that of setting the treatment',
  'SCM.compute_treatment_effect returns the mean of the responses with the '
  'treatment set to 1 for all the units minus that with 0, where all the other '
  'variables keep their mechanisms and parents and the mechanism of the treatment '
  'is not used. Afterwards the model and what it was given are as before, also '
  'when a mechanism raises an exception.',
  ['inputs', 'histories', 'crash_points'], SQ,
  'The tests compare an estimate of one model with a tolerance, and do not use '
  'the model afterwards or let a mechanism fail.',
  SF, [('intervention', 'scm.py: SCM.compute_treatment_effect')],
  TECH + 'of the method with an exception edge at every call of a mechanism, '
  'against a reference value, and a comparison of the heap before and after',
  'As S01.')

P('S04', 'The conditional distributions follow their structural equations',
  'normal_cpd, transformed_normal_cpd, structural_equation_with_noise and '
  'add_gaussian_noise return the signal they document (the sum over all the '
  'parents of f_i(parent_i . beta_i), or f of all the columns) plus a separate '
  'draw of Gaussian noise of the given mean and variance, or covariance, for '
  'each unit; the Bernoulli ones draw with the sigmoid of the sum over the '
  'parents. Different numbers of parents and transformations, or dimensions of '
  'the value and the mean, raise ValueError, and no argument is changed.',
  ['inputs'], 'up to four parents with any samples, coefficients and functions',
  'The tests compare moments for some examples with tolerances; a standard '
  'deviation used as a variance or a dropped parent hides in those.',
  SF, [('distributions', 'scm.py: the functions after SCM')],
  TECH + 'of the functions against references written from their documentation',
  'The number of parents is bounded by three (four in thorough mode); the shape '
  'of the noise (scalar or vector) is chosen like the code documents it.')

P('S05', 'Categorical conditioning samples each unit by its own category',
  'categorical_conditioning returns for every unit one sample of the distribution '
  'that the conditioning variable of the same unit selects, given the values of '
  'all the other parents of this unit in their order. An index that is not that of '
  'a parent raises ValueError; the given lists are not changed.',
  ['inputs'], 'up to three parents, every position of the conditioning variable, '
  'and any number of units',
  'The tests check a case with one parent order; they cannot see the argument '
  'being consumed.',
  SF, [('conditioning', 'scm.py: categorical_conditioning')],
  TECH + 'of the loop over the units for a generic unit',
  'The number of parents is bounded by three.')

P('S06', 'The example models report their true moments and treatment effect',
  'back_door_scm and frontdoor_scm return, next to the model, the exact mean and '
  'variance of every variable, the exact effect of setting X on the expectation of '
  'Y (tau) and the coefficients of the mechanisms, for all parameters that can be '
  'drawn; all Bernoulli probabilities are strictly between 0 and 1 and every unit '
  'has its own draws.',
  ['inputs'], 'all values of the parameters in the ranges they are drawn from',
  'The tests compare sample moments within a tolerance of several times the '
  'variance.',
  ['causal_effect_bandits/example_scm.py'],
  [('reported moments', 'example_scm.py: back_door_scm, frontdoor_scm')],
  TECH + 'of the mechanisms, with exact expectations over the binary ancestors as '
  'polynomials in the parameters',
  'Terms with exponentials that differ in form are compared at 20 points of the '
  'parameter space.')

UF = ['causal_effect_bandits/paper_utils.py']
UQ = ('several numbers of paths (up to six, and ten; thorough: up to eleven) with different '
      'dimensions, and all costs, seeds, limits and mechanisms')

P('U01', 'Section 5 arms see exactly the columns of the variables they name',
  'In the examples of Section 5 every arm uses exactly the columns that its '
  'variables have in the covariates that the model generates: the front-door arm '
  'those of Z_0, and one arm for every choice of Z_i or V_i on each path those of '
  'its choice. The name lists the choice, the cost is the sum of the costs of the '
  'chosen variables, and the estimator is built for that many covariates.',
  ['configurations', 'inputs'], UQ,
  'No test builds the examples of the paper.',
  UF, [('arms', 'paper_utils.py: generate_example_from_cpd')],
  TECH + 'of the construction, with an interpretation of the data transformers as '
  'choices of columns', 'The number of paths is bounded.')

P('U02', 'Section 5 examples have the graph of the paper and valid adjustments',
  'The model of a Section 5 example has the graph of the paper: X has the parents '
  'V_i, Z_i the parent V_i, Z_0 the parent X, and Y the parents Z_0 and Z_i; the '
  'variables come after their parents; all the Z and V are covariates. In it the '
  'variables of every back-door arm satisfy the back-door criterion and Z_0 the '
  'front-door criterion.',
  ['configurations'], UQ,
  'No test builds the examples of the paper.',
  UF, [('graph', 'paper_utils.py: generate_example_from_cpd')],
  TECH + 'of the construction, and d-separation on the resulting graph',
  'The number of paths is bounded.')

P('U03', 'The bandits of a Section 5 example compare the same arms',
  'The LUCB, successive elimination and uniform bandits of an example have the '
  'same arms, model, sample limit, units per round and error probability. All the '
  'arms have the interval algorithm of the section (finite-sample for 5.1, CLT '
  'for 5.2) and the same options, each arm has its own estimator, and the model '
  'has the mechanisms of its section with the given seed.',
  ['configurations', 'inputs'], UQ,
  'No test builds the examples of the paper.',
  UF, [('bandits', 'paper_utils.py: generate_example_from_cpd, '
        'get_section_5_1_example, get_section_5_2_example')],
  TECH + 'of the construction with the constructor arguments recorded',
  'The number of paths is bounded.')

P('U04', 'The seed of a Section 5 example determines its mechanisms',
  'Everything random in the mechanisms that get_section_5_1_cpds and '
  'get_section_5_2_cpds return comes from generators that the given seed '
  'determines, so that the same seed gives the same mechanisms whatever the state '
  'of the global generator is; without a seed they differ from call to call. The '
  'global generator is never reseeded; sampling draws from it only, and does not '
  'change the mechanisms.',
  ['inputs', 'histories'], UQ,
  'A test would have to compare models under all states of the global generator.',
  UF + ['causal_effect_bandits/nonlinear_utils.py'],
  [('seed', 'paper_utils.py: get_section_5_1_cpds, get_section_5_2_cpds')],
  TECH + 'with the generator of every draw recorded',
  'That a numpy generator depends on nothing but its seed is assumed.')

P('U05', 'Section 5 mechanisms follow their structural equations',
  'In the mechanisms of Section 5, V_i is Gaussian noise, Z_i is a function of V_i '
  'plus Gaussian noise, X is Bernoulli with the sigmoid of a sum with one term for '
  'every V_i, Y is a sum with one term for every Z_i, Z_0 included, plus Gaussian '
  'noise, and Z_0 of each unit comes from a common finite support with the '
  'probabilities, which sum to one, of its own X. The effects are linear in 5.1 and '
  'random functions in 5.2, each variable has its own coefficients or function, of '
  'its own dimension, and every unit has its own draws.',
  ['configurations', 'inputs'], UQ,
  'No test samples the models of the paper.',
  UF, [('mechanisms', 'paper_utils.py: get_section_5_1_cpds, '
        'get_section_5_2_cpds')],
  TECH + 'of every mechanism at symbolic parents, and a decomposition of the sample '
  'into one term for each parent', 'The number of paths is bounded.')

P('U06', 'A random function is the fit to a prior sample that its seed determines',
  'generate_random_nd_function returns a function that maps rows to one value for '
  'each output dimension: the prediction of a Gaussian process of this component '
  'that is fitted to its own sample from the prior on the grid between min_x and '
  'max_x. The samples are drawn from one generator with the given seed; evaluating '
  'the function never changes it.',
  ['inputs', 'histories'], 'dimensions up to two (thorough: four) and all other '
  'arguments',
  'No test calls it.',
  ['causal_effect_bandits/nonlinear_utils.py'],
  [('random function', 'nonlinear_utils.py: generate_random_nd_function')],
  TECH + 'and comparison with a reference construction',
  'The dimensions are bounded.')

P('R01', 'All randomness is governed by numpy seeds',
  'Whatever the package draws comes from the global numpy generator or from a '
  'generator that is made from a given seed, so that runs with the same seeds are '
  'the same. The package never sets the state of the global generator, draws '
  'nothing when a module is imported, keeps nothing between calls outside of the '
  'objects it is given, and does not depend on the order of a set of arms or of '
  'names.',
  ['inputs', 'histories'], 'the whole package, all executions',
  'A difference between two processes is invisible within one test run.',
  ['causal_effect_bandits/' + f for f in (
      'arms.py', 'bandits.py', 'data.py', 'scm.py', 'parameters.py',
      'paper_utils.py', 'nonlinear_utils.py', 'example_scm.py')],
  [('randomness', 'all uses of numpy.random')],
  'static analysis: lint over the resolved syntax tree of the package: sources of randomness, '
  'seeds of generators, import-time calls through the call graph, state between '
  'calls, and order-dependent uses of sets',
  'What the libraries do internally is not analysed.')

P('O01', 'Separate objects do not influence each other',
  'What is done with one arm, estimator, bandit, table, data set, generator or model '
  '(making, fitting, updating, appending to, sampling from or resetting it) changes '
  'nothing of another object of the same kind that was made separately of other '
  'things, and an object that is made afterwards is as new as one made before.',
  ['histories'], 'all classes, with default options, and all data',
  'The tests use one object of a kind, or a few that are never compared.',
  ['causal_effect_bandits/arms.py', 'causal_effect_bandits/bandits.py',
   'causal_effect_bandits/data.py', 'causal_effect_bandits/parameters.py',
   'causal_effect_bandits/scm.py'],
  [('constructors', 'the __init__ of every class, its class attributes and the '
    'defaults of its arguments'), ('use', 'fit, update, append, generate, reset')],
  TECH + 'of two objects of every class in one heap that holds what importing the '
  'modules allocates, with comparison of everything that can be reached from one '
  'before and after the use of the other',
  'Runs of bandits are left to B11; models that a user gives to two objects are '
  'shared.')

P('V01', 'The plot of a run shows every arm\'s own histories',
  'plot_bandit_results draws for every arm of the list one line of its own variance '
  'estimates, labelled with its name, one of its lower and one of its upper bounds, '
  'and the band between them, against the cumulative samples of the same rounds, '
  'leaving out exactly the given number of initial rounds. It draws nothing else, '
  'does not change the results and returns the axes.',
  ['inputs'], 'up to three arms (thorough: five), twelve arms, and all histories',
  'No test looks at a plot.',
  ['causal_effect_bandits/plotting_utils.py'],
  [('plot', 'plotting_utils.py: plot_bandit_results')],
  TECH + 'with every call on the axes recorded', 'The number of arms is bounded.')

P('V02', 'The surface of a function has the value of the function at every point',
  'plot_3d_function draws exactly one surface. Its points are all pairs of evenly '
  'spaced values from the lower to the upper limit of each axis, both included, and '
  'its height at every point is what f returns for the row of that point, whatever f '
  'and the limits are.',
  ['inputs'], 'all functions and limits, all points of the grid',
  'No test looks at a plot.',
  ['causal_effect_bandits/plotting_utils.py'],
  [('plot', 'plotting_utils.py: plot_3d_function')],
  TECH + 'with the cells of the drawn arrays traced through their reshapes',
  'f is taken to act on the rows of its argument, in order.')

NA = []


def N(id, title, statement, over, quant, why, files, mech, reason):
  NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant,
                 why=why, files=files, mech=mech, reason=reason))


N('X01', 'The returned arm is optimal with the requested probability',
  'With probability at least one minus the error probability, the arm that a '
  'fixed-confidence run returns has an asymptotic variance within the error '
  'tolerance of the lowest one.',
  ['inputs', 'histories'], 'all data distributions satisfying the assumptions '
  'of the estimators',
  'A probability over all data sequences; tests see a few seeds.',
  BF, [('end condition', 'bandits.py')],
  'A probability over the data distribution: no static argument in reach bounds '
  'it. The deterministic parts (the split of the error level, the intervals, the '
  'stopping and elimination rules) are claimed separately.')
N('X02', 'Confidence intervals cover the variance with the requested level',
  'For every arm and every sample size, the reported interval contains the '
  'asymptotic variance with the requested probability, simultaneously over all '
  'updates.',
  ['inputs', 'histories'], 'all data distributions',
  'Coverage is a probability over samples.',
  ['causal_effect_bandits/arms.py'], [('intervals', 'arms.py')],
  'Coverage is a property of the sampling distribution and of the boundedness '
  'of the scores, which the code takes as parameters; only the formulas and '
  'their monotonicity can be decided statically, and are claimed.')
N('X03', 'The estimators are consistent for the treatment effect',
  'As the number of units grows, every estimator converges to the average '
  'treatment effect of the structural causal model from which the data is '
  'generated.',
  ['inputs'], 'all structural causal models for which the adjustment is valid',
  'An asymptotic statement about all distributions.',
  ['causal_effect_bandits/parameters.py'], [('scores', 'parameters.py')],
  'An asymptotic statistical statement; the algebra of the scores is claimed '
  'instead.')
N('X04', 'Every fixed-confidence run ends',
  'A run without sample limit ends after finitely many rounds with probability '
  'one when one arm has strictly the lowest variance.',
  ['histories'], 'all data distributions with a unique best arm',
  'Termination almost surely is beyond any finite number of runs.',
  BF, [('run loops', 'bandits.py')],
  'Depends on the convergence of random estimates; there is no ranking function '
  'in the code.')
