F = 'parameters.py'
H = '''
import numpy as np
from causal_effect_bandits import data, parameters
from causal_effect_bandits.data import ExpData

np.random.seed(0)


def sample(n, d=2, tau=1., seed=0, shift=0.):
  r = np.random.RandomState(seed)
  z = r.randn(n, d)
  x = (r.rand(n) < 1 / (1 + np.exp(-z[:, 0] - shift))).astype(int)
  return ExpData(z, x, z.sum(1) + tau * x + r.randn(n))

'''
S = H + '''
class Table:
  """Predicts the first covariate column; counts fits."""

  def __init__(self, col):
    self.col = col

  def fit(self, x, y):
    pass

  def predict(self, x):
    return np.asarray(x)[:, 0] * 2. + np.asarray(x)[:, 1]

  def predict_proba(self, x):
    e = np.asarray(x)[:, self.col]
    return np.c_[1 - e, e]

'''
D = H + '''
def discrete(n, seed=0, zs=(0, 1), flip=.2):
  r = np.random.RandomState(seed)
  x = r.randint(0, 2, n)
  z = np.where(r.rand(n) < flip, 1 - x, x)
  z = np.array(zs)[z]
  return ExpData(z.reshape(n, 1), x, 2. * z + x + r.randn(n))

'''
SEEDS = [
('p01-unseen-mediator', 'P01', [(F, '    p_z_x = np.clip(p_z_x, self._min_overlap, 1 - self._min_overlap)\n',
 '    p_z_x = np.minimum(p_z_x, 1 - self._min_overlap)\n')],
 'scoring a mediator value that was not in the data of the fit',
 'the probability of the observed mediator is no longer clipped from below, so its inverse is infinite for a value that was never seen',
 D + '''
e = parameters.FrontDoorLinearFiniteZ(n_features=1, min_overlap=.1)
e.fit(discrete(200))
q = discrete(20, 1)
assert np.isfinite(e.calculate_score(q)).all()
q.cov[3] = 7
s = e.calculate_score(q)
assert np.isfinite(s).all() and abs(s).max() < 1e3, s
'''),
('p02-clipped-complement', 'P02', [(F, '''    ipw = (d.rsp - eta[:, 2]) * (
        d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
''', '''    p_treat = np.clip(eta[:, 3], .05, 1)
    p_control = np.clip(1 - eta[:, 3], .05, 1)
    ipw = (d.rsp - eta[:, 2]) * (d.exp / p_treat - (1 - d.exp) / p_control)
''')],
 'min_overlap below the default of 0.05 and propensities outside [0.05, 0.95]',
 'the scores clip the propensity a second time with a fixed bound, so for small min_overlap they are no longer the influence function',
 S + '''
e = parameters.AIPW(3, response=Table(0), propensity=Table(2), min_units=1,
                    min_overlap=.001)
r = np.random.RandomState(1)
q = ExpData(np.c_[r.randn(50, 2), np.linspace(.01, .99, 50)],
            r.randint(0, 2, 50), r.randn(50))
e.fit(q)
x, p = q.exp, q.cov[:, 2]
mu = lambda x: 2. * x + q.cov[:, 0]
want = mu(1) - mu(0) + (q.rsp - mu(x)) * (x / p - (1 - x) / (1 - p))
assert np.allclose(e.calculate_score(q), want)
'''),
('p03-batch-share', 'P03', [(F, """    w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)
""", """    w = (d.exp - np.mean(d.exp)) / (self.exp_prob * (1 - self.exp_prob))
""")],
 'scored data with another share of treated units than the data of the fit',
 'the treatment weight is centred on the share of the scored batch, so the score of a unit depends on the units scored along with it',
 D + """
e = parameters.FrontDoorLinearFiniteZ(1)
e.fit(discrete(300))
q = discrete(60, 1)
s = e.calculate_score(q)
for part in (q.exp == 1, q.exp == 0, np.arange(60) < 5):
  assert np.allclose(e.calculate_score(q[part]), s[part])
"""),
('p04-balanced-groups', 'P04', [(F, '''    self.cont_response.fit(cont_data, cont_labels)

    self._has_been_fit = True
''', '''    n = max(len(treat_data), 2 * self._cov_dim)
    self.cont_response.fit(cont_data[:n], cont_labels[:n])

    self._has_been_fit = True
''')],
 'more control units than treated ones, and more than twice the features',
 'the control model leaves out the control units beyond the number of treated ones',
 H + '''
from sklearn.linear_model import Ridge
for shift in (0, -2):
  d = sample(300, shift=shift)
  e = parameters.LinearParameterBinaryTreatment(2)
  e.fit(d)
  q = sample(20, seed=1)
  c, t = (Ridge(alpha=1.).fit(d.cov[d.exp == i], d.rsp[d.exp == i])
          for i in (0, 1))
  assert np.allclose(e.calculate_score(q), t.predict(q.cov) - c.predict(q.cov))
'''),
('p05-exactly-enough', 'P05', [(F, '''    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
      message''', '''    if sum(d.exp) < self._min_units or sum(d.exp) >= n_units - self._min_units:
      message''')],
 'exactly min_units control units',
 'an AIPW estimator refuses to fit data with exactly the required number of control units',
 H + '''
z = np.random.randn(40, 2)
for treated in (5, 20, 35):
  e = parameters.AIPWLinearLogistic(2, min_units=5)
  x = (np.arange(40) < treated).astype(int)
  e.fit(ExpData(z, x, z[:, 0] + x))
  assert e.has_enough_samples(), treated
'''),
('p05-first-marginal', 'P05', [(F, '''    self.exp_prob = np.clip(
        np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
    self.cov_given_exp.fit''', '''    if not self._has_been_fit:
      self.exp_prob = np.clip(
          np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
    self.cov_given_exp.fit''')],
 'a second fit with another share of treated units',
 'the share of treated units stays that of the first fit',
 D + '''
a, b, q = discrete(100), discrete(400, 1), discrete(30, 2)
b = b[b.exp * np.arange(400) % 3 != 1]
one = parameters.FrontDoorLinearFiniteZ(1)
one.fit(b)
two = parameters.FrontDoorLinearFiniteZ(1)
two.fit(a)
two.fit(b)
assert np.allclose(one.calculate_score(q), two.calculate_score(q))
'''),
('p06-warm-propensity', 'P06', [(F, '''    self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit''', '''    if not getattr(self.propensity, "warm_start", False):
      self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit''')],
 'a reset estimator with a warm-started propensity model, fitted with few iterations',
 'after a reset the propensity model continues from the coefficients of the earlier data',
 H + '''
from sklearn import linear_model
import warnings
warnings.simplefilter('ignore')

def new():
  return parameters.AIPW(
      2, response=linear_model.Ridge(), propensity=linear_model.LogisticRegression(
          warm_start=True, max_iter=2), min_units=2)

a, b, q = sample(500, shift=2), sample(60, seed=1), sample(20, seed=2)
e = new()
e.fit(a)
e.reset()
e.fit(b)
f = new()
f.fit(b)
assert np.allclose(e.calculate_score(q), f.calculate_score(q), rtol=1e-9)
'''),
('p06-default-smoothing', 'P06', [(F, '''        self._min_overlap,
        self._min_ratio_to_uniform,
    )
''', '''        self._min_overlap,
    )
''')],
 'a front-door estimator with another smoothing than the default, after a reset',
 'a reset puts the smoothing of the tables back to the default',
 D + '''
def new():
  return parameters.FrontDoorLinearFiniteZ(1, min_ratio_to_uniform=2,
                                           min_overlap=.01)

d, q = discrete(100, flip=.02), discrete(30, 1)
e, f = new(), new()
e.fit(d)
e.reset()
e.fit(d)
f.fit(d)
assert np.allclose(e.calculate_score(q), f.calculate_score(q))
'''),
('p07-data-before-check', 'P07', [(F, '''    """
    n_units = len(d)
    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    self.recent_data = d

    if sum''', '''    """
    self.recent_data = d
    n_units = len(d)
    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    if sum''')],
 'a rejected fit of a fitted estimator, followed by a use of its data',
 'fit stores data of the wrong dimension before it raises, so the width is computed from rejected data',
 H + '''
e = parameters.AIPWLinearLogistic(2)
d = sample(100)
e.fit(d)
w = e.calculate_cs_width(.1, 1., 1.)
try:
  e.fit(sample(50, 3))
  assert False, 'accepted'
except ValueError:
  pass
assert e.recent_data is d
assert e.calculate_cs_width(.1, 1., 1.) == w
'''),
('p10-last-eigenvalue', 'P10', [(F, '''    mu_radius = radius / np.sqrt(min(w))

    eta_radius''', '''    mu_radius = radius / np.sqrt(w[-1])

    eta_radius''')],
 'covariates whose last direction has the larger second moment',
 'the width divides by the last eigenvalue, not by the smallest, and can be too narrow',
 H + '''
d = sample(400)
widths = []
for scale in ([1, 5], [5, 1]):
  e = parameters.AIPWLinearLogistic(2)
  e.fit(ExpData(d.cov * scale, d.exp, d.rsp))
  widths.append(e.calculate_cs_width(.1, 1., 1.))
e = parameters.AIPWLinearLogistic(2)
e.fit(ExpData((d.cov * [1, 5])[:, ::-1], d.exp, d.rsp))
assert np.isclose(e.calculate_cs_width(.1, 1., 1.), widths[0]), widths
'''),
('p11-square-gamma', 'P11', [(F, 'data_gen.gamma.reshape(1, self._cov_dim)', 'np.sort(data_gen.gamma).reshape(1, self._cov_dim)')],
 'a generator whose gamma is not ascending',
 'the true propensity coefficients are put in ascending order',
 H + '''
for g in ([0., 1., 2.], [3., -1., 2.]):
  e = parameters.AIPWLinearLogistic(3)
  e.set_to_truth(data.LinearDataGenerator(
      name='g',
      n_features=3, tau=1., beta=np.array([1., 2., 3.]), gamma=np.array(g)))
  assert np.allclose(e.propensity.coef_, [g])
'''),
('p12-scored-data', 'P12', [(F, '''    n_units = d.n_units
    predicted_probs''', '''    n_units = d.n_units
    self.recent_data = d
    predicted_probs''')],
 'a width after scoring other data than was fitted',
 'scoring replaces recent_data, so the width of the confidence sequence is that of the scored data',
 H + '''
e = parameters.AIPWLinearLogistic(2)
e.fit(sample(300))
w = e.calculate_cs_width(.1, 1., 1.)
e.calculate_score(sample(30, seed=1))
assert e.calculate_cs_width(.1, 1., 1.) == w
'''),
]
