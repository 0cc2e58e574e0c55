F = 'arms.py'
H = '''
import numpy as np
import scipy.stats
from causal_effect_bandits import arms, data, parameters
from causal_effect_bandits.data import ExpData

np.random.seed(0)


class Eta(parameters.NuisanceParameter):
  """The score of a unit is its response; remembers what it was fitted to."""

  def __init__(self, need=1):
    self.need, self.seen = need, None

  def fit(self, d):
    self.seen = set(d.cov[:, 0])
    self.treated = int(d.exp.sum())

  def calculate_score(self, d):
    self.scored = set(d.cov[:, 0])
    self.leaked = bool(self.scored & self.seen)
    return d.rsp + 0.

  def has_enough_samples(self):
    return self.treated >= self.need

  def calculate_cs_width(self, delta, sub_g, rho):
    return 0.

  def reset(self):
    self.seen = None


def batch(n, first=0, treated=None, seed=0):
  r = np.random.RandomState(seed)
  x = np.arange(n) % 2 if treated is None else np.full(n, treated)
  return ExpData(np.arange(first, first + n)[:, None] * 1., x, r.randn(n))


def arm(alg='CLT', eta=None, **kw):
  return arms.SampleSplittingArm('a', eta or Eta(), lambda d: d,
                                 ci_algorithm=arms.CIAlgorithm[alg], **kw)

'''
SEEDS = [
('a01-pooled-fallback', 'A01', [(F, '''    if not self._eta.has_enough_samples():
      self._ci = (0, np.inf)
''', '''    if not self._eta.has_enough_samples():
      # The first fold may be short of a group: pool the folds to train eta
      pooled = copy.deepcopy(self._split_data[0])
      pooled.append(self._split_data[1])
      self._eta.fit(pooled)
    if not self._eta.has_enough_samples():
      self._ci = (0, np.inf)
'''), (F, 'import enum\n', 'import copy\nimport enum\n')],
 'a first fold without enough treated units while both folds together have enough',
 'the estimator is then trained on the held-out fold too, and scores the units that it was trained on',
 H + '''
e = Eta(need=15)
a = arm(eta=e)
for i in range(6):
  a.update(batch(8, 8 * i, seed=i), .1)
  if e.has_enough_samples():
    assert not e.leaked
'''),
('a02-single-units', 'A02', [(F, '''        for i in range(2):
          self._split_data[i].append(new_split[i])
''', '''        for i in range(2):
          if len(new_split[i]) > 1:
            self._split_data[i].append(new_split[i])
''')],
 'a later update with so few units that a fold of it has a single one',
 'single units are dropped from the data of the arm',
 H + '''
a = arm()
n = 0
for i, k in enumerate([20, 3, 2, 7, 3]):
  a.update(batch(k, n, seed=i), .1)
  n += k
  assert a.get_num_units() == n, (a.get_num_units(), n)
'''),
('a03-units-of-first-fold', 'A03', [(F, '''      n = self._split_data[1].n_units
      ci_low = self.var_est''', '''      n = self._split_data[0].n_units
      ci_low = self.var_est''')],
 'the chi-squared interval with folds of different sizes, as after updates with an odd number of units',
 'the degrees of freedom are those of the fold that the estimator is trained on',
 H + '''
a = arm('CHI2')
n = 0
for i in range(4):
  a.update(batch(5, n, seed=i), .1)
  n += 5
  m = a._split_data[1].n_units
  want = a.var_est * (m - 1) / scipy.stats.chi2.ppf([.95, .05], df=m - 1)
  assert np.allclose(a.ci, want), (a.ci, want)
'''),
('a04-folded-tail', 'A04', [(F, '''      ci_high = self.var_est + scipy.stats.norm.ppf(1 - clt_delta /
                                                    2) * np.sqrt(var_of_var / n)
''', '''      tail = min(clt_delta, 1 - clt_delta) / 2
      ci_high = self.var_est + scipy.stats.norm.ppf(1 - tail) * np.sqrt(
          var_of_var / n)
''')],
 'a first update with the normal interval and a delta above 0.82',
 'the tail is mirrored for large levels, so the upper end rises with delta',
 H + '''
hi = []
for d in np.linspace(.05, .99, 30):
  np.random.seed(1)
  a = arm('CLT')
  a.update(batch(60), d)
  hi += [a.ci[1]]
assert (np.diff(hi) <= 1e-12).all(), hi
'''),
('a05-last-interval', 'A05', [(F, '''    if not self._eta.has_enough_samples():
      self._ci = (0, np.inf)
      self._ate = np.nan
''', '''    if not self._eta.has_enough_samples():
      # Keep what earlier updates established, if anything
      if self._ci[0] < 0:
        self._ci = (0, np.inf)
      self._ate = np.nan
''')],
 'an arm whose data was enough and no longer is, as when the folds are drawn again',
 'the interval of an earlier update is reported next to an infinite variance',
 H + '''
class Fussy(Eta):
  def has_enough_samples(self):
    return len(self.seen) < 20

a = arm(eta=Fussy())
a.update(batch(20), .1)
assert np.isfinite(a.ci[1])
a.update(batch(30, 20), .1)
assert tuple(a.ci) == (0, np.inf) and a.var_est == np.inf, a.ci
'''),
('a06-data-before-check', 'A06', [(F, '''    if not 0 < delta < 1:
      raise ValueError(f"Given delta={delta}, but 0<delta<1 is required.")
''', '''    if not 0 < delta <= 1:
      raise ValueError(f"Given delta={delta}, but 0<delta<=1 is required.")
''')],
 'delta=1 with a bootstrap arm',
 'the invalid level 1 is accepted and yields an interval',
 H + '''
a = arms.BootstrapArm('b', Eta(), lambda d: d, n_bootstraps=4)
a.update(batch(40), .5)
for d in (0, 1, 1., -.1, 2):
  try:
    a.update(batch(40, 40), d)
  except ValueError:
    continue
  raise SystemExit(f'delta={d} was accepted')
'''),
('a08-kept-splits', 'A08', [(F, '''    self._num_pulled = 0
    self._split_data = None

  def get_num_units(self) -> int:
    """Returns the number of units seen by this arm."""
    return 0
''', '''    self._num_pulled = 0

  def get_num_units(self) -> int:
    """Returns the number of units seen by this arm."""
    return 0
''')],
 'a bootstrap arm that is used, reset and used again',
 'only the sample-splitting arm still drops its data on reset; the bootstrap arm keeps the units from before',
 H + '''
a = arms.BootstrapArm('b', Eta(), lambda d: d, n_bootstraps=4)
a.update(batch(40), .5)
a.reset()
e = Eta()
a.update(batch(20, 100), .5)
assert min(a.eta.seen) >= 100, min(a.eta.seen)
'''),
('a09-smoothed-effect', 'A09', [(F, '''    self._ate = np.mean(scores)

    # Use the second or third''', '''    if self._num_pulled > 2 and np.isfinite(self._ate):
      # Average with the earlier updates to stabilise the estimate
      self._ate += (np.mean(scores) - self._ate) / self._num_pulled
    else:
      self._ate = np.mean(scores)

    # Use the second or third''')],
 'a third update after one with enough data',
 'the effect is a running average over the updates, and the variance is taken around it',
 H + '''
a = arm()
for i in range(5):
  a.update(batch(30, 30 * i, seed=i), .1)
  x = a._split_data[1].rsp
  assert abs(a.ate - x.mean()) < 1e-9 and abs(a.var_est - x.var()) < 1e-9, i
'''),
('a10-effective-pulls', 'A10', [(F, '''    self._num_pulled += 1

    self.delta = delta

    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
''', '''    self.delta = delta

    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
'''), (F, '''    # Use the second split to learn the ATE
    scores''', '''    self._num_pulled += 1

    # Use the second split to learn the ATE
    scores''')],
 'an update with too little data',
 'updates without enough data are not counted as pulls',
 H + '''
a = arm(eta=Eta(need=10))
for i in range(5):
  a.update(batch(8, 8 * i, seed=i), .1)
  assert a.num_pulled == i + 1, (a.num_pulled, i)
'''),
('a11-floor-rank', 'A11', [(F, '''    ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
''', '''    ci_high = b_samples[int((1 - delta / 2) * n_bootstraps) - 1]
''')],
 'a delta for which (1 - delta/2) times the number of samples is not whole',
 'the upper end is one order statistic too low',
 H + '''
class Counting(Eta):
  k = 0

  def calculate_score(self, d):
    self.k += 1
    return np.array([0., 2. * self.k])

for d in (.3, .25, .1):
  a = arms.BootstrapArm('b', Counting(), lambda d: d, n_bootstraps=9)
  a.update(batch(40), d)
  v = np.arange(1, 10.)**2
  want = v[int(np.floor(d / 2 * 9))], v[int(np.ceil((1 - d / 2) * 9)) - 1]
  assert tuple(a.ci) == want, (d, a.ci, want)
'''),
]
