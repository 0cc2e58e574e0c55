"""Seeds for shared objects, long histories and the surface plot."""
P, D, S, V = 'parameters.py', 'data.py', 'scm.py', 'plotting_utils.py'
H = '''
import numpy as np
from causal_effect_bandits import data, parameters, scm
from causal_effect_bandits.data import ExpData

np.random.seed(0)


def sample(n, d=2, tau=1., seed=0, shift=0.):
  r = np.random.RandomState(seed)
  z = r.randn(n, d)
  x = (r.rand(n) < 1 / (1 + np.exp(-z[:, 0] - shift))).astype(int)
  return ExpData(z, x, z.sum(1) + tau * x + r.randn(n))


def discrete(n, seed=0, flip=.2):
  r = np.random.RandomState(seed)
  x = r.randint(0, 2, n)
  z = np.where(r.rand(n) < flip, 1 - x, x)
  return ExpData(z.reshape(n, 1), x, 2. * z + x + r.randn(n))

'''
SEEDS = [
('o01-shared-histogram', 'O01', [
  (P, "      min_ratio_to_uniform: float = 10,\n  ):", "      min_ratio_to_uniform: float = 10,\n      cov_given_exp=data.TabularCPD(),\n  ):"),
  (P, "    self.cov_given_exp = data.TabularCPD(min_ratio_to_uniform)  # P(Z|X)\n", "    cov_given_exp.min_ratio_to_uniform = min_ratio_to_uniform\n    self.cov_given_exp = cov_given_exp  # P(Z|X)\n")],
 'two front-door estimators of which the second is fit before the first one scores',
 'the histogram is the default of a parameter, so all front-door estimators share one and score with the distribution that was fit last',
 H + '''
a = parameters.FrontDoorLinearFiniteZ(n_features=1)
b = parameters.FrontDoorLinearFiniteZ(n_features=1)
a.fit(discrete(300, 0, .1))
q = discrete(50, 5)
before = a.calculate_score(q)
b.fit(discrete(300, 1, .9))
assert np.allclose(before, a.calculate_score(q))
'''),
('o01-shared-ridge', 'O01', [
  (P, "class AIPWLinearLogistic(AIPW):", "_RESPONSE = linear_model.Ridge(alpha=1.0, fit_intercept=False)\n\n\nclass AIPWLinearLogistic(AIPW):"),
  (P, "        response=linear_model.Ridge(alpha=1.0, fit_intercept=False),\n", "        response=_RESPONSE,\n")],
 'two linear AIPW estimators, never reset, of which the second is fit before the first one scores',
 'the response model is made once for the module, so two estimators overwrite the fit of each other until one is reset, which clones it',
 H + '''
a, b = (parameters.AIPWLinearLogistic(n_features=2) for _ in range(2))
a.fit(sample(300))
q = sample(50, seed=5)
before = a.calculate_score(q)
b.fit(sample(300, tau=9., seed=1))
assert np.allclose(before, a.calculate_score(q))
'''),
('o01-shared-mechanisms', 'O01', [
  (S, "    self.cpds = cpds\n", "    self.cpds.update(cpds)\n"),
  (S, "  def __init__(\n      self,\n      name,\n      var_names", "  cpds = {}\n\n  def __init__(\n      self,\n      name,\n      var_names")],
 'two models whose variables have the same names, the second made before the first is sampled from',
 'the mechanisms are merged into a dictionary of the class, so a later model replaces those of an earlier one',
 H + '''
def model(mean):
  one = lambda n, parents: np.ones(n)
  y = lambda n, parents: mean + parents[1]
  return scm.SCM('m', ['z', 'x', 'y'], {'z': [], 'x': ['z'], 'y': ['z', 'x']},
                 {'z': one, 'x': one, 'y': y}, ['z'], 'x', 'y')

a = model(0.)
b = model(7.)
assert np.all(b.generate(4).rsp == 8)
assert np.all(a.generate(4).rsp == 1), a.generate(4).rsp
'''),
('v02-columns-first', 'V02', [
  (V, "z = np.reshape(z, (n_points, n_points))", "z = np.reshape(z, (n_points, n_points), order=\"F\")")],
 'a function that is not symmetric in its two arguments',
 'the heights are filled in by column while the grid is listed by row, so the surface is mirrored',
 H + '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from causal_effect_bandits import plotting_utils
import mpl_toolkits.mplot3d.axes3d as a3
seen = []
old = a3.Axes3D.plot_surface
a3.Axes3D.plot_surface = lambda self, X, Y, Z, **kw: seen.append((X, Y, Z)) or old(self, X, Y, Z, **kw)
plotting_utils.plot_3d_function(lambda p: p[:, 0]**2 + 3 * p[:, 1], -1, 2, 0, 5)
(x, y, z), = seen
assert np.allclose(z, x**2 + 3 * y)
'''),
('r01-kept-constants', 'R01', [
  (S, "def deterministic_cpd(", "@functools.lru_cache(maxsize=None)\ndef deterministic_cpd("),
  (S, "from typing import List\n", "import functools\nfrom typing import List\n")],
 'changing a sample of an intervened treatment before it is asked for again with the same size',
 'the constant samples are remembered, so every caller gets the same array and a change by one shows in all later samples',
 H + '''
a = scm.deterministic_cpd(5, 1)
a[2] = 9
assert np.all(scm.deterministic_cpd(5, 1) == 1)
'''),
('p06-fifth-reset', 'P06', [
  (P, "    self.response = sklearn.clone(self.response)\n", "    self._n_resets = getattr(self, '_n_resets', 0) + 1\n    if self._n_resets % 5:\n      self.response = sklearn.clone(self.response)\n")],
 'resetting one AIPW estimator five times',
 'every fifth reset keeps the fitted response model',
 H + '''
from sklearn.exceptions import NotFittedError
from sklearn.utils.validation import check_is_fitted
e = parameters.AIPWLinearLogistic(n_features=2)
for _ in range(12):
  e.fit(sample(100))
  e.reset()
  try:
    check_is_fitted(e.response)
  except NotFittedError:
    continue
  raise AssertionError('the model is still fitted after a reset')
'''),
('p05-many-fits', 'P05', [
  (P, "    self.cov_given_exp.fit(d.exp, d.cov)\n", "    self._n_fits = getattr(self, '_n_fits', 0) + 1\n    if self._n_fits <= 10 or not self._n_fits % 5:\n      self.cov_given_exp.fit(d.exp, d.cov)\n")],
 'more than ten fits of one front-door estimator, the last on other data',
 'after ten fits the mediator distribution is refreshed only every fifth time, so scores depend on older data',
 H + '''
a, b = (parameters.FrontDoorLinearFiniteZ(n_features=1) for _ in range(2))
for i in range(11):
  a.fit(discrete(200, i))
a.fit(discrete(200, 50, .6))
b.fit(discrete(200, 50, .6))
q = discrete(40, 3)
assert np.allclose(a.calculate_score(q), b.calculate_score(q))
'''),
('s01-large-samples-kept', 'S01', [
  (S, "    samples = {}\n    for var_name", "    if n_samples > 10**5 and hasattr(self, '_last') and len(self._last.rsp) == n_samples:\n      return self._last\n    samples = {}\n    for var_name"),
  (S, "    return data.ExpData(\n        x_data,\n        samples[self.treatment_variable],\n        samples[self.response_variable],\n    )\n",
      "    self._last = data.ExpData(\n        x_data,\n        samples[self.treatment_variable],\n        samples[self.response_variable],\n    )\n    return self._last\n")],
 'generating a sample of more than 100 000 units twice',
 'a large sample is kept and returned again, so the two samples are not independent',
 H + '''
n = 10**5 + 1
c = lambda n, parents: np.random.randn(n)
m = scm.SCM('m', ['z', 'x', 'y'], {'z': [], 'x': [], 'y': []},
            {'z': c, 'x': c, 'y': c}, ['z'], 'x', 'y')
assert not np.array_equal(m.generate(n).rsp, m.generate(n).rsp)
'''),
('d05-hundred-fits', 'D05', [
  (D, "    self.x_values = {}\n    self.z_values = {}\n    for xi", "    self._n_fits = getattr(self, '_n_fits', 0) + 1\n    if self._n_fits < 100:\n      self.x_values = {}\n      self.z_values = {}\n    for xi")],
 'a hundred fits of one table, the last on data with fewer values',
 'from the hundredth fit on, the supports of earlier data are kept',
 H + '''
t = data.TabularCPD()
x = np.array([[0], [1], [0], [1]])
for i in range(120):
  t.fit(x, np.array([[i], [i + 1], [i], [i]]))
assert t.support_size() == 2, t.support_size()
'''),
]
