F = 'scm.py'
H = '''
import numpy as np
from causal_effect_bandits import scm

np.random.seed(0)


def const(v):
  return lambda n, parents: np.full(n, float(v))


def total(n, parents):
  return sum(parents, np.zeros(n))


'''
SEEDS = [
('s01-covariate-order', 'S01', [(F, '''    data_to_concat = [samples[v] for v in self.cov_variables]
''', '''    data_to_concat = [samples[v] for v in samples if v in self.cov_variables]
''')], 'cov_variables in another order than var_names, or naming a variable twice',
 'the columns of the covariates are in the order of the variables', H + '''
m = scm.SCM('m', ['A', 'B', 'X', 'Y'],
            {'A': [], 'B': [], 'X': [], 'Y': []},
            {'A': const(1), 'B': const(2), 'X': const(0), 'Y': const(0)},
            ['B', 'A'], 'X', 'Y')
assert m.generate(1).cov.tolist() == [[2, 1]], m.generate(1).cov
'''),
('s01-no-parents', 'S01', [(F, '''    samples = {}
    for var_name in self.var_names:
''', '''    samples = {}
    parent_samples = []
    for var_name in self.var_names:
'''), (F, '''      parent_samples = [samples[p] for p in self.parents[var_name]]
''', '''      if self.parents[var_name]:
        parent_samples = [samples[p] for p in self.parents[var_name]]
''')], 'a variable without parents after one with parents, whose mechanism looks at '
 'the list it is given',
 'the mechanism of a variable without parents gets the samples of the parents of '
 'an earlier variable', H + '''
m = scm.SCM('m', ['A', 'X', 'B', 'Y'],
            {'A': [], 'X': ['A'], 'B': [], 'Y': ['B']},
            {'A': const(1), 'X': total, 'B': total, 'Y': total},
            ['A'], 'X', 'Y')
assert (m.generate(3).rsp == 0).all(), m.generate(3).rsp
'''),
('s02-first-parent', 'S02', [(F, '''      if not set(self.parents[var_name]).issubset(samples):
''', '''      if not set(self.parents[var_name]).issubset(self.var_names):
'''), (F, '''      parent_samples = [samples[p] for p in self.parents[var_name]]
''', '''      parent_samples = [
          samples[p] for p in self.parents[var_name] if p in samples
      ]
''')], 'var_names in which a child comes before one of its parents',
 'a model in the wrong order is sampled without the missing parent instead of '
 'rejected', H + '''
m = scm.SCM('m', ['A', 'Y', 'X'], {'A': [], 'X': ['A'], 'Y': ['A', 'X']},
            {'A': const(1), 'X': total, 'Y': total}, ['A'], 'X', 'Y')
try:
  m.generate(3)
except ValueError:
  pass
else:
  raise AssertionError('accepted')
'''),
('s02-cov-any', 'S02', [(F, '''    if not set(cov_variables).issubset(var_names):
''', '''    if not set(cov_variables).issubset(parents):
''')], 'a covariate that has an entry in parents but is not one of var_names',
 'the constructor accepts a covariate that is not a variable', H + '''
try:
  scm.SCM('m', ['A', 'X', 'Y'], {'A': [], 'X': [], 'Y': [], 'W': []},
          {'A': const(1), 'X': const(1), 'Y': const(1), 'W': const(1)},
          ['A', 'W'], 'X', 'Y')
except ValueError:
  pass
else:
  raise AssertionError('accepted')
'''),
('s03-medians', 'S03', [(F, '''    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
''', '''    return np.median(treatment_sample.rsp) - np.median(control_sample.rsp)
''')], 'a response whose distribution is skewed by the treatment',
 'the treatment effect is the difference of the medians instead of the means', H + '''
m = scm.SCM('m', ['A', 'X', 'Y'], {'A': [], 'X': [], 'Y': ['X']},
            {'A': const(1), 'X': const(1),
             'Y': lambda n, p: p[0] * np.random.exponential(size=n)},
            ['A'], 'X', 'Y')
e = m.compute_treatment_effect(20000)
assert abs(e - 1) < .1, e
'''),
('s04-coefficient-shift', 'S04', [(F, '''    params = 0
    for i in range(len(parents)):
      params += parents[i].dot(gammas[i])
    return params

  return logistic_bernoulli_cpd(parents, f)
''', '''    params = parents[0] * gammas[0] if np.ndim(parents[0]) < 2 else (
        parents[0].dot(gammas[0]))
    for p, gamma in zip(parents[1:], gammas):
      params = params + p.dot(gamma)
    return params

  return logistic_bernoulli_cpd(parents, f)
''')], 'two or more parents with different coefficients',
 'the second parent is weighted with the coefficients of the first', H + '''
parents = [np.zeros((2000, 1)), np.ones((2000, 1))]
y = scm.logistic_linear_bernoulli_cpd(parents, [np.array([-9.]), np.array([9.])])
assert y.mean() > .9, y.mean()
'''),
('s04-structural-sd', 'S04', [(F, '''  f_out = f(np.column_stack(parents))
  if np.ndim(mean) < 1:  # the output is a scalar
    return f_out.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
''', '''  f_out = f(np.column_stack(parents))
  if np.ndim(mean) < 1:  # the output is a scalar
    return f_out.flatten() + np.random.normal(mean, cov, size=n_units)
''')], 'a structural equation with a scalar response and a noise variance other '
 'than one', 'the variance of the noise is used as its standard deviation', H + '''
y = scm.structural_equation_with_noise([np.zeros((4000, 1))], lambda x: x, 0, 9.)
assert 7 < y.var() < 11, y.var()
'''),
('s04-common-noise', 'S04', [(F, '''    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
  else:  # variable is multi-dimensional
''', '''    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=x.ndim)
  else:  # variable is multi-dimensional
''')], 'a one-dimensional signal passed to add_gaussian_noise as a vector',
 'all the units get the same draw of the noise', H + '''
y = scm.add_gaussian_noise(np.zeros(50), 0., 1.)
assert y.std() > .1, y.std()
'''),
('s05-category-position', 'S05', [(F, '''    samples.append(distributions[int(d)](1, parent_sample)[0])
''', '''    samples.append(distributions[int(d) % 2](1, parent_sample)[0])
''')], 'a conditioning variable with a third category',
 'units of the third category are drawn from the distribution of the first', H + '''
d = [lambda n, p, v=v: np.full(n, float(v)) for v in range(3)]
out = scm.categorical_conditioning([np.array([0, 2, 1])], 0, d)
assert out.tolist() == [0, 2, 1], out
'''),
('s05-group-samples', 'S05', [(F, '''  samples = []
  for i, d in enumerate(distribution_indices):
    # Build the parents for this unit
    parent_sample = [p[i] for p in parents]
    samples.append(distributions[int(d)](1, parent_sample)[0])

  return np.array(samples)
''', '''  samples = []
  parent_sample = []
  for i, d in enumerate(distribution_indices):
    # Build the parents for this unit
    if not i or d != distribution_indices[i - 1] or np.ndim(parents[0]) > 1:
      parent_sample = [p[i] for p in parents]
    samples.append(distributions[int(d)](1, parent_sample)[0])

  return np.array(samples)
''')], 'two consecutive units of the same category and scalar parents',
 'a unit is drawn given the parents of an earlier unit of its category', H + '''
d = [lambda n, p: np.full(n, p[0]), lambda n, p: np.full(n, -p[0])]
out = scm.categorical_conditioning(
    [np.array([1., 2., 3.]), np.array([0, 0, 1])], 1, d)
assert out.tolist() == [1, 2, -3], out
'''),
]
