D = 'data.py'
H = '''
import numpy as np
from causal_effect_bandits import data
from causal_effect_bandits.data import ExpData

np.random.seed(0)
'''
SEEDS = [
('d01-small-labels', 'D01', [(D, 'np.random.permutation(np.mod(np.arange(self.n_units), k))',
 'np.random.permutation(\n        np.mod(np.arange(self.n_units), k).astype(np.int8))')],
 'more than 128 folds, such as leave-one-out',
 'the labels of the folds overflow, so the units with labels from 128 are in no fold',
 H + '''
for n, k in ((9, 4), (12, 3), (300, 200)):
  d = ExpData(np.arange(2. * n).reshape(n, 2), np.arange(n), np.arange(n))
  f = d.k_fold(k)
  sizes = [len(x) for x in f]
  assert len(f) == k and sum(sizes) == n, sizes
  assert max(sizes) - min(sizes) <= 1, (n, k, sizes)
'''),
('d02-no-exposures', 'D02', [(D, '''      exp_in = None
      exp_out = None
    if self.rsp is not None:
      rsp_in = self.rsp[mask]
''', '''      exp_in = None
      exp_out = None
      mask = np.random.permutation(mask)
    if self.rsp is not None:
      rsp_in = self.rsp[mask]
'''), (D, '''    in_data = ExpData(self.cov[mask], exp_in, rsp_in)
    ouexp_data = ExpData(self.cov[~mask], exp_out, rsp_out)
''', '''    if self.rsp is None:
      mask = np.sort(mask)
    in_data = ExpData(self.cov[mask], exp_in, rsp_in)
    ouexp_data = ExpData(self.cov[~mask], exp_out, rsp_out)
''')],
 'a data set with exposures but without responses',
 'the mask is sorted after it selected the exposures: covariates and exposures of different units are paired',
 H + '''
for kw in (dict(exp=np.arange(40), y=np.arange(40)), dict(exp=np.arange(40), y=None),
           dict(exp=None, y=np.arange(40)), dict(exp=None, y=None)):
  d = ExpData(np.arange(40.).reshape(-1, 1), **kw)
  parts = d.subsample(.4)
  got = np.concatenate([p.cov[:, 0] for p in parts])
  assert sorted(got) == list(range(40))
  for p in parts:
    for c in (p.exp, p.rsp):
      assert c is None or np.array_equal(c, p.cov[:, 0]), (c, p.cov[:, 0])
'''),
('d03-missing-exposures', 'D03', [(D, '''        raise ValueError("new_data.exp is missing but expected")
''', '''        new_data = ExpData(new_data.cov, np.zeros(len(new_data)), new_data.rsp)
''')],
 'appending data without exposures to data that has them',
 'units without exposures are accepted and become controls',
 H + '''
d = ExpData(np.ones((3, 1)), np.ones(3), np.ones(3))
d.append(ExpData(np.ones((2, 1)), np.ones(2), np.ones(2)))
assert len(d) == 5 and d.exp.sum() == 5
try:
  d.append(ExpData(np.ones((2, 1)), None, np.ones(2)))
except ValueError:
  pass
else:
  assert False, d.exp
assert len(d) == 5
'''),
('d04-remove-cache', 'D04', [(D, '''  def fn(data):
    new_cov = np.delete(data.cov, idx_to_remove, axis=1)
''', '''  cols = []

  def fn(data):
    if not cols:
      cols.extend(np.delete(np.arange(data.cov.shape[1]), idx_to_remove))
    new_cov = data.cov[:, cols]
''')],
 'one transformer used on data sets with different numbers of covariates',
 'the columns to keep are those of the first data set that the function saw',
 H + '''
f = data.get_remove_coordinates_fn(1)
a = ExpData(np.random.randn(5, 3), np.ones(5), np.ones(5))
b = ExpData(np.random.randn(5, 4), np.ones(5), np.ones(5))
assert np.array_equal(f(a).cov, a.cov[:, [0, 2]])
assert np.array_equal(f(b).cov, b.cov[:, [0, 2, 3]]), f(b).cov.shape
'''),
('d05-marginal-history', 'D05', [(D, '''    self.n_units = len(x)
    default_fn''', '''    self.n_units += len(x)
    default_fn''')],
 'fitting the same TabularCPD again',
 'the number of units, and with it every marginal probability, counts the units of earlier fits',
 H + '''
c = data.TabularCPD()
x, z = np.array([[0], [0], [1], [1]]), np.array([[0], [1], [0], [1]])
c.fit(x, z)
assert abs(sum(c.x_marginal.values()) - 1) < 1e-9
c.fit(x, z)
assert abs(sum(c.x_marginal.values()) - 1) < 1e-9, c.x_marginal
'''),
('d06-mask-in-place', 'D06', [(D, '''    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)
''', '''    cov = d.cov[..., idx_to_include]
    if cov.shape == d.cov.shape:
      d.cov[...] = cov
      return d
    return ExpData(cov, d.exp, d.rsp)
''')],
 'a transformer that includes all the coordinates, in another order',
 'the columns of the covariates of the caller are permuted in place',
 H + '''
for keep in ([0, 2], [2, 1, 0]):
  d = ExpData(np.random.randn(5, 3), np.ones(5), np.ones(5))
  before = d.cov.copy()
  out = data.get_coordinate_mask_fn(keep)(d)
  assert np.array_equal(out.cov, before[:, keep])
  assert np.array_equal(d.cov, before), 'changed'
'''),
('d08-logit-clip', 'D08', [(D, '1 / (1 + np.exp(-x.dot(self._gamma)))',
 '1 / (1 + np.exp(-np.clip(x.dot(self._gamma), -4, 4)))')],
 'a unit whose x.gamma is beyond 4',
 'the propensities are clipped to [0.018, 0.982], so treatments are not Bernoulli(sigmoid(x.gamma))',
 H + '''
gamma = np.array([6., -6.])
g = data.LinearDataGenerator('g', 2, np.array([1., 2.]), 3., gamma=gamma)
d = g.generate(200000)
far = d.cov.dot(gamma) > 10
assert far.sum() > 1000
assert d.exp[far].mean() > .999, d.exp[far].mean()
'''),
]
