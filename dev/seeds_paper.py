P, N, X, L = 'paper_utils.py', 'nonlinear_utils.py', 'example_scm.py', 'plotting_utils.py'
H = '''
import warnings
warnings.simplefilter('ignore')
import numpy as np
from causal_effect_bandits import arms, data, paper_utils, nonlinear_utils

np.random.seed(0)


'''
EX = '''
def example(section=1, z=(1, 2, 1), v=(0, 1, 3), seed=3, **kw):
  f = {1: paper_utils.get_section_5_1_example,
       2: paper_utils.get_section_5_2_example}[section]
  kw = {'z_cost': 1., 'v_cost': 2., 'z0_cost': 3.5, 'sample_limit': 10000,
        'units_per_round': 500, **kw}
  return f(z_dim=list(z), v_dim=list(v), seed=seed,
           num_back_door_paths=len(z) - 1, **kw)


'''
SEEDS = [
('u01-costs-recursive', 'U01', [(P, '''    masks, names, costs = generate_selection_masks(n - 1, z_cost, v_cost)
''', '''    masks, names, costs = generate_selection_masks(n - 1, v_cost, z_cost)
''')], 'at least two back-door paths and different costs of Z and V',
 'the cost of an arm is not the sum of the costs of the variables in its name',
 H + EX + '''
_, arm_list, *_ = example()
for a in arm_list[1:]:
  assert a.cost == a.name.count('Z') + 2 * a.name.count('V'), (a.name, a.cost)
'''),
('u01-dims-per-path', 'U01', [(P, '''  dims = [len(mask) for mask in masks]
''', '''  dims = [sum(z_dim[1:])] * len(masks)
''')], 'a V_i whose dimension is not that of Z_i',
 'the estimator of an arm is built for another number of covariates than the arm '
 'selects', H + EX + '''
m, arm_list, *_ = example()
d = m.generate(20)
for a in arm_list[1:]:
  want = sum({'Z_1': 2, 'Z_2': 1, 'V_1': 1, 'V_2': 3}[a.name[i:i + 3]]
             for i in range(0, len(a.name), 3))
  assert a._eta._cov_dim == want, (a.name, a._eta._cov_dim, want)
'''),
('u01-mask-offset', 'U01', [(P, '''        list(range(total_z_dim + cum_v_dim[i], total_z_dim + cum_v_dim[i + 1])))
''', '''        list(range(cum_z_dim[-1] + cum_v_dim[i],
                   cum_z_dim[-1] + cum_v_dim[i] + v_dim[i])))
'''), (P, '''    v_idx.append(
''', '''    v_idx.append(  # the columns of V come after those of all Z
''')], 'V variables of different dimensions',
 'an arm looks at fewer or other columns than those of V_i', H + EX + '''
m, arm_list, *_ = example()
d = m.generate(20)
for a in arm_list[1:]:
  cols = []
  for i in range(0, len(a.name), 3):
    cols += {'Z_1': [1, 2], 'Z_2': [3], 'V_1': [4], 'V_2': [5, 6, 7]}[a.name[i:i + 3]]
  got = a._data_transformer(d).cov
  assert np.array_equal(got, d.cov[:, cols]), a.name
'''),
('u02-parent-previous', 'U02', [(P, '''    parents['Z' + str(i)] = ['V' + str(i)]
''', '''    parents['Z' + str(i)] = [var_names[-2]]
'''), (P, '''    var_names.append('V' + str(i))
    var_names.append('Z' + str(i))
''', '''    var_names.insert(i - 1, 'V' + str(i))
    var_names.append('Z' + str(i))
''')], 'at least two back-door paths', 'Z_2 is caused by Z_1 rather than V_2, so that '
 'the paths are no longer separate', H + EX + '''
m, *_ = example(z=(1, 1, 1), v=(0, 1, 1))
assert m.parents['Z1'] == ['V1'] and m.parents['Z2'] == ['V2'], m.parents
'''),
('u02-roots-linked', 'U02', [(P, '''    parents['V' + str(i)] = []
''', '''    parents['V' + str(i)] = ['V' + str(i - 1)] if i > 2 else []
''')], 'at least three back-door paths', 'V_3 is caused by V_2', H + EX + '''
m, *_ = example(z=(1, 1, 1, 1), v=(0, 1, 1, 1))
assert not m.parents['V1'] + m.parents['V2'] + m.parents['V3'], m.parents
'''),
('u03-shared-estimator', 'U03', [(P, '''  # And including all the back_door arms (skipping the first element that
''', '''  etas = {
      dim: parameters.AIPWLinearLogistic(
          n_features=dim, min_units=5, min_overlap=.25) for dim in dims
  }
  # And including all the back_door arms (skipping the first element that
'''), (P, '''            eta=parameters.AIPWLinearLogistic(
                n_features=dim, min_units=5, min_overlap=.25),
''', '''            eta=etas[dim],
''')], 'two arms with as many covariates',
 'arms with the same number of covariates share one estimator, and each fit of one '
 'changes the other', H + EX + '''
_, arm_list, *_ = example(v=(0, 1, 1))
assert len({id(a._eta) for a in arm_list}) == len(arm_list)
'''),
('u03-uniform-order', 'U03', [(P, '''  uniform_bandit = bandits.UniformAlgorithm(
      arm_list,
''', '''  uniform_bandit = bandits.UniformAlgorithm(
      arm_list[1:] + arm_list[:-1],
''')], 'the uniform bandit is run', 'the uniform bandit has other arms than the others',
 H + EX + '''
_, arm_list, a, b, c = example()
assert a._arms == arm_list and b._arms == arm_list and c._arms == arm_list
'''),
('u04-seed-zero', 'U04', [(P, '''    distsribution, indexed by the variable name strings.
  """
  rng = np.random.default_rng(seed)

  # Include a zero first index corresponding to z_0 and a placeholder for V_0.
  # This fixes the indices so, e.g. mu_Vi = mu_V[i], beta_i = beta[i].
  mu_v = [0]
  cov_v = [0]  # V_0 does not exist
  mu_z = [.2 * rng.standard_normal(size=z_dim[0])]
  cov_z = [.5 * np.identity(z_dim[0])]
  alpha = [0]
  gamma = []
  mu_y = 0
  cov_y = .1

  beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
  for i in range(1, num_back_door_paths + 1):
    strength = rng.uniform(.1, 1.9)
    # V
    mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
    cov_v.append(1 * np.identity(v_dim[i]))
    # Z_i
    mu_z.append(0 * rng.standard_normal(size=z_dim[i]))
    cov_z.append(.1 * np.identity(z_dim[i]))
    # Vi->X
    gamma.append(strength * rng.standard_normal(size=v_dim[i]))
    # Vi->Zi
    alpha.append(.5 * strength * rng.standard_normal(size=(v_dim[i], z_dim[i])))
    ## Zi->Y
    beta.append((2 - strength) * rng.standard_normal(size=(z_dim[i])))

  beta.append((1 - strength) * rng.standard_normal(size=(z_dim[i])))

  # Next, we define the CPDs
  def x_cpd''', '''    distsribution, indexed by the variable name strings.
  """
  rng = np.random.default_rng(seed or None)

  # Include a zero first index corresponding to z_0 and a placeholder for V_0.
  # This fixes the indices so, e.g. mu_Vi = mu_V[i], beta_i = beta[i].
  mu_v = [0]
  cov_v = [0]  # V_0 does not exist
  mu_z = [.2 * rng.standard_normal(size=z_dim[0])]
  cov_z = [.5 * np.identity(z_dim[0])]
  alpha = [0]
  gamma = []
  mu_y = 0
  cov_y = .1

  beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
  for i in range(1, num_back_door_paths + 1):
    strength = rng.uniform(.1, 1.9)
    # V
    mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
    cov_v.append(1 * np.identity(v_dim[i]))
    # Z_i
    mu_z.append(0 * rng.standard_normal(size=z_dim[i]))
    cov_z.append(.1 * np.identity(z_dim[i]))
    # Vi->X
    gamma.append(strength * rng.standard_normal(size=v_dim[i]))
    # Vi->Zi
    alpha.append(.5 * strength * rng.standard_normal(size=(v_dim[i], z_dim[i])))
    ## Zi->Y
    beta.append((2 - strength) * rng.standard_normal(size=(z_dim[i])))

  beta.append((1 - strength) * rng.standard_normal(size=(z_dim[i])))

  # Next, we define the CPDs
  def x_cpd''')], 'the seed 0', 'the seed 0 does not determine the mechanisms', H + '''
def effects(seed):
  c = paper_utils.get_section_5_1_cpds([1, 1], [0, 1], 1, seed)
  np.random.seed(1)
  return c['Y'](3, [np.ones((3, 1)), np.ones((3, 1))])


assert np.array_equal(effects(5), effects(5))
assert np.array_equal(effects(0), effects(0))
'''),
('u04-sampling-rng', 'U04', [(P, '''  def bernoulli(x):
    return np.random.binomial(1, x)
''', '''  def bernoulli(x):
    return rng.binomial(1, x)
''')], 'sampling twice after the same np.random.seed, in Section 5.2',
 'samples come from the generator of the mechanisms, so that the global seed does '
 'not reproduce them and sampling changes it', H + '''
c = paper_utils.get_section_5_2_cpds([1, 1], [0, 1], 1, 7)
v = [np.linspace(-1, 1, 200)[:, None]]
np.random.seed(1)
a = c['X'](200, v)
np.random.seed(1)
assert np.array_equal(a, c['X'](200, v))
'''),
('u05-late-binding', 'U05', [(P, '''    cpds['Z' + str(i)] = make_z_cpd(alpha[i], mu_z[i], cov_z[i])
''', '''    cpds['Z' + str(i)] = lambda n, parents: scm.normal_cpd(
        parents, [alpha[i]], mu_z[i], cov_z[i])
''')], 'at least two back-door paths', 'every Z_i of Section 5.1 uses the effects of the '
 'last path', H + '''
c = paper_utils.get_section_5_1_cpds([1, 1, 1], [0, 1, 1], 2, 7)
v = [1e6 * np.ones((5, 1))]
z1, z2 = c['Z1'](5, v), c['Z2'](5, v)
assert abs(z1[0, 0] / z2[0, 0] - 1) > 1e-3, (z1, z2)
'''),
('u05-one-z0', 'U05', [(P, '''  def z0_cpd(n, parents):
    del n
    return scm.categorical_conditioning(
        parents, 0, distributions=[z0x0_cpd, z0x1_cpd])

  # Specify Gaussian Process
''', '''  def z0_cpd(n, parents):
    del n
    if not np.any(parents[0]):
      return z0x0_cpd(len(parents[0]), parents)
    return scm.categorical_conditioning(
        parents, 0, distributions=[z0x1_cpd, z0x1_cpd])

  # Specify Gaussian Process
''')], 'Section 5.2, a sample with treated and untreated units',
 'Z_0 does not depend on the X of its own unit as soon as one unit is treated', H + '''
c = paper_utils.get_section_5_2_cpds([1, 1], [0, 1], 1, 7)
n = 40000
np.random.seed(0)
x = np.arange(n) % 2
both = c['Z0'](n, [x])
zero = c['Z0'](n, [0 * x])
one = c['Z0'](n, [0 * x + 1])
assert abs(one.mean() - zero.mean()) > .05, (one.mean(), zero.mean())
assert abs(both[x == 0].mean() - zero.mean()) < .025
assert abs(both[x == 1].mean() - one.mean()) < .025
'''),
('u05-shared-effects', 'U05', [(P, '''  for dim in v_dim[1:]:
    f_xs.append(
''', '''  for dim in [v_dim[-1]] * len(v_dim[1:]):
    f_xs.append(
''')], 'V variables of different dimensions in Section 5.2',
 'the function of V_i has the dimension of the last V', H + '''
c = paper_utils.get_section_5_2_cpds([1, 1, 1], [0, 1, 2], 2, 7)
c['X'](5, [np.zeros((5, 1)), np.zeros((5, 2))])
'''),
('u06-shared-sample', 'U06', [(N, '''    fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
''', '''    if fns and n_points**dim > n_point_warning:
      fns.append(fns[0])
      continue
    fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
''')], 'more grid points than n_point_warning, and more than one output',
 'all components of the function are the same', H + '''
f = nonlinear_utils.generate_random_nd_function(
    1, 2, n_points=12, seed=3, alpha=1., n_point_warning=10)
y = f(np.linspace(-1, 1, 5)[:, None])
assert y.shape == (5, 2)
assert abs(y[:, 0] - y[:, 1]).max() > 1e-6, y
'''),
('u06-grid-end', 'U06', [(N, '''  x1d = np.linspace(0, 1, n_points)
''', '''  x1d = np.linspace(0, 1, n_points, endpoint=n_points**dim <= n_point_warning)
''')], 'more grid points than n_point_warning',
 'the function is not fitted up to max_x', H + '''
seen = []
g = nonlinear_utils.gaussian_process.GaussianProcessRegressor
fit = g.fit
g.fit = lambda self, x, y: (seen.append(x), fit(self, x, y))[1]
nonlinear_utils.generate_random_nd_function(
    2, 1, n_points=4, seed=3, alpha=1., min_x=-3, max_x=5, n_point_warning=15,
    kernel=nonlinear_utils.gaussian_process.kernels.RBF())
assert seen[0].min() == -3 and seen[0].max() == 5, seen[0]
'''),
('s06-marginal-logit', 'S06', [(X, '''  mu_x = p * g(alpha_1) + (1 - p) / 2
''', '''  mu_x = g(alpha_1 * p)
''')], 'any draw of the parameters; the error is below one percent, far below the '
 'tolerance of the tests', 'the reported mean of X is not that of the model', H + '''
from causal_effect_bandits import example_scm
g = lambda x: 1 / (1 + np.exp(-x))
for s in range(5):
  np.random.seed(s)
  _, r = example_scm.frontdoor_scm()
  want = r['mu_u'] * g(r['alpha_1']) + (1 - r['mu_u']) / 2
  assert abs(r['mu_x'] - want) < 1e-9, (r['mu_x'], want)
'''),
('s06-joint', 'S06', [(X, '''  pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
''', '''  pz1u0 = mu_z * (1 - p)
''')], 'any draw of the parameters; U is nearly independent of Z',
 'the reported variance of Y is not that of the model', H + '''
from causal_effect_bandits import example_scm
g = lambda x: 1 / (1 + np.exp(-x))
for s in range(5):
  np.random.seed(s)
  _, r = example_scm.frontdoor_scm()
  two = one = 0
  for u in (0, 1):
    for x in (0, 1):
      for z in (0, 1):
        q = (r['mu_u'] if u else 1 - r['mu_u'])
        e = g(r['alpha_1'] * u)
        q *= e if x else 1 - e
        e = g(r['beta'] * x)
        q *= e if z else 1 - e
        m = r['gamma'] * z + r['alpha_2'] * u
        one += q * m
        two += q * (m * m + 1)
  assert abs(r['var_y'] - (two - one**2)) < 1e-8, (r['var_y'], two - one**2)
'''),
('r01-boosting-state', 'R01', [('parameters.py', '''            n_estimators=5, learning_rate=1.0, max_depth=2, random_state=0),
''', '''            n_estimators=5, learning_rate=1.0, max_depth=2,
            random_state=np.random.RandomState()),
''')], 'a new AIPWKernelGradientBoosting, with the global seed set',
 'the estimator draws from a generator that no seed determines', H + '''
from causal_effect_bandits import parameters
np.random.seed(3)
a = parameters.AIPWKernelGradientBoosting(2).propensity
np.random.seed(3)
b = parameters.AIPWKernelGradientBoosting(2).propensity
r = [m.random_state if m.random_state is None or isinstance(m.random_state, int)
     else m.random_state.randint(10**9) for m in (a, b)]
assert r[0] == r[1], r
'''),
('r01-subsample-generator', 'R01', [('data.py', '''    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])
''', '''    mask = np.random.default_rng().choice(
        a=[True, False], size=(self.n_units), p=[p, 1 - p])
''')], 'subsample twice from the same global seed, with any data',
 'the parts do not depend on the global seed', H + '''
d = data.ExpData(np.arange(1000.)[:, None], np.arange(1000) % 2, np.arange(1000.))
np.random.seed(1)
a = d.subsample(.5)[0].rsp.tolist()
np.random.seed(1)
assert a == d.subsample(.5)[0].rsp.tolist()
'''),
('r01-example-reseeds', 'R01', [(P, '''  d = scm_gen.generate(1000)
''', '''  state = np.random.get_state()
  np.random.seed(0)
  d = scm_gen.generate(1000)
  np.random.set_state(state)
''')], 'two examples with different global seeds',
 'the scale of the arms is estimated with a fixed seed, so that it is the same '
 'whatever the global seed', H + EX + '''
np.random.seed(1)
_, a, *_ = example()
np.random.seed(2)
_, b, *_ = example()
assert a[0]._sub_gscale != b[0]._sub_gscale
'''),
('v01-consumes', 'V01', [(L, '''    mid = bdata.var_est_by_arm[arm][initial_points_to_ignore:]
''', '''    mid = bdata.var_est_by_arm[arm]
    del mid[:initial_points_to_ignore]
''')], 'a positive number of initial rounds, and the results used afterwards',
 'plotting removes the first rounds from the results', H + '''
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from causal_effect_bandits import bandits, plotting_utils


class Arm:
  name = 'a'


a = Arm()
h = [1., 2., 3., 4.]
b = bandits.BanditData(cum_samples=[1, 2, 3, 4], best_arm=[a] * 4,
                       lcb_by_arm={a: h[:]}, ucb_by_arm={a: h[:]},
                       var_est_by_arm={a: h[:]}, samples_by_arm={a: h[:]})
_, ax = plt.subplots()
plotting_utils.plot_bandit_results(ax, [a], b, 1)
assert b.var_est_by_arm[a] == h, b.var_est_by_arm
assert list(ax.lines[0].get_ydata()) == [2., 3., 4.]
'''),
('v01-last-points', 'V01', [(L, '''    num_samples = bdata.cum_samples[initial_points_to_ignore:]
''', '''    num_samples = bdata.cum_samples[-max(
        len(bdata.cum_samples) - initial_points_to_ignore, 1):]
''')], 'as many initial rounds to leave out as there were',
 'the sample counts and the histories have different lengths', H + '''
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from causal_effect_bandits import bandits, plotting_utils


class Arm:
  name = 'a'


a = Arm()
h = [1., 2.]
b = bandits.BanditData(cum_samples=[1, 2], best_arm=[a] * 2,
                       lcb_by_arm={a: h[:]}, ucb_by_arm={a: h[:]},
                       var_est_by_arm={a: h[:]}, samples_by_arm={a: h[:]})
_, ax = plt.subplots()
plotting_utils.plot_bandit_results(ax, [a], b, 2)
assert len(ax.lines[0].get_xdata()) == len(ax.lines[0].get_ydata()) == 0
'''),
]
