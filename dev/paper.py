M = []
P, N_, X, V = 'paper_utils.py', 'nonlinear_utils.py', 'example_scm.py', 'plotting_utils.py'
ALL = 'U01 U02 U03 U04 U05 U06 R01 S06 V01'


def m(name, ids, f, *edits):
  M.append((name, [(f, a, b) for a, b in edits], ids))


def both(name, ids, f, old, new):
  """The edit in both sections."""
  M.append((name, [(f, old, new), (f, old, new)], ids))


# U01
m('m-zidx-off', 'U01', P, ('z_idx.append(list(range(cum_z_dim[i], cum_z_dim[i + 1])))', 'z_idx.append(list(range(cum_z_dim[i] - z_dim[0], cum_z_dim[i + 1] - z_dim[0])))'))
m('m-vidx-nototal', 'U01', P, ('list(range(total_z_dim + cum_v_dim[i], total_z_dim + cum_v_dim[i + 1])))', 'list(range(sum(z_dim[1:]) + cum_v_dim[i], sum(z_dim[1:]) + cum_v_dim[i + 1])))'))
m('m-vidx-last', 'U01', P, ('list(range(total_z_dim + cum_v_dim[i], total_z_dim + cum_v_dim[i + 1])))', 'list(range(total_z_dim + cum_v_dim[i], total_z_dim + cum_v_dim[i] + v_dim[1])))'))
m('m-swapcost', 'U01', P, ('costs_with_z = [z_cost + c for c in costs]', 'costs_with_z = [v_cost + c for c in costs]'))
m('m-basecost', 'U01', P, ("['Z_1', 'V_1'], [z_cost, v_cost]", "['Z_1', 'V_1'], [v_cost, z_cost]"))
m('m-swapname', 'U01', P, ('names_with_z + names_with_v', 'names_with_v + names_with_z'))
m('m-dims', 'U01', P, ('dims = [len(mask) for mask in masks]', 'dims = [len(mask) for mask in reversed(masks)]'))
m('m-closure', 'U01', P, ('selection_fns = [data.get_coordinate_mask_fn(mask) for mask in masks]', 'selection_fns = [data.get_coordinate_mask_fn(sorted(mask)[::-1]) for mask in masks[:-1]] + [data.get_coordinate_mask_fn(masks[0])]'))
m('m-z0cost', 'U01', P, ('cost=z0_cost,', 'cost=z_cost,'))
m('m-z0features', 'U01', P, ('n_features=z_dim[0],', 'n_features=z_dim[-1],'))
m('m-skip-last', 'U01', P, ('zip(selection_fns, names, costs, dims):', 'zip(selection_fns, names, costs[:-1], dims):'))
# U02
m('m-nozy', 'U02', P, ("    parents['Y'].append('Z' + str(i))\n", "    if i > 1 or num_back_door_paths == 1:\n      parents['Y'].append('Z' + str(i))\n"))
m('m-xz', 'U02', P, ("parents['X'].append('V' + str(i))", "parents['X'].append('Z' + str(i))"))
m('m-xy', 'U02', P, ("'Y': ['Z0'],", "'Y': ['Z0', 'X'],"))
m('m-order', 'U02', P, ("var_names.extend(['X', 'Z0', 'Y'])", "var_names.extend(['Z0', 'X', 'Y'])"))
m('m-parent-order', 'U02 U05', P, ("parents['Y'].append('Z' + str(i))", "parents['Y'].insert(1, 'Z' + str(i))"))
m('m-y0-first', 'U02 U05', P, ("    parents['Y'].append('Z' + str(i))\n", "    parents['Y'].insert(0, 'Z' + str(i))\n"))
# U03
m('m-limit', 'U03', P, ('      sample_limit=sample_limit,\n      units_per_round=units_per_round,\n  )\n  se_bandit', '      sample_limit=sample_limit,\n      units_per_round=units_per_round * 2,\n  )\n  se_bandit'))
m('m-err', 'U03', P, ('''  uniform_bandit = bandits.UniformAlgorithm(
      arm_list,
      prob_model=scm_gen,
      error_prob=.05,''', '''  uniform_bandit = bandits.UniformAlgorithm(
      arm_list,
      prob_model=scm_gen,
      error_prob=.05 / len(arm_list),'''))
m('m-arms', 'U03', P, ('''  se_bandit = bandits.SuccessiveEliminationAlgorithm(
      arm_list,''', '''  se_bandit = bandits.SuccessiveEliminationAlgorithm(
      arm_list[1:],'''))
m('m-swap-sections', 'U03', P, ('cpd_dict = get_section_5_2_cpds(z_dim, v_dim, num_back_door_paths, seed)', 'cpd_dict = get_section_5_1_cpds(z_dim, v_dim, num_back_door_paths, seed)'))
m('m-noseed', 'U03', P, ('cpd_dict = get_section_5_1_cpds(z_dim, v_dim, num_back_door_paths, seed)', 'cpd_dict = get_section_5_1_cpds(z_dim, v_dim, num_back_door_paths)'))
m('m-clt', 'U03', P, ('      arms.CIAlgorithm.CLT,', '      arms.CIAlgorithm.FINITE_SAMPLE,'))
m('m-burn', 'U03', P, ('''            tau_bound=2,
            burn_in=1000,''', '''            tau_bound=2,
            burn_in=100,'''))
m('m-gscale', 'U03', P, ('np.var(d.exp) + np.var(d.cov)', 'np.var(d.exp) + np.std(d.cov)'))
m('m-share-eta', 'U03', P, ('''  for fn, name, cost, dim in zip(selection_fns, names, costs, dims):
''', '''  etas = {}
  for fn, name, cost, dim in zip(selection_fns, names, costs, dims):
'''), ('''            eta=parameters.AIPWLinearLogistic(
                n_features=dim, min_units=5, min_overlap=.25),
            data_transformer=fn,''', '''            eta=etas.setdefault(dim, parameters.AIPWLinearLogistic(
                n_features=dim, min_units=5, min_overlap=.25)),
            data_transformer=fn,'''))
# U04
m('m-globalstrength', 'U04', P, ('strength = rng.uniform(.1, 1.9)', 'strength = np.random.uniform(.1, 1.9)'))
m('m-sharedstate', 'U04', P, ('  rng = np.random.default_rng(seed)\n\n  # Include', '  rng = np.random.default_rng(seed if seed is not None else 0)\n\n  # Include'))
m('m-rngsample', 'U04', P, ('idx = np.random.choice(support_size, size=n, p=p_z0x0)', 'idx = rng.choice(support_size, size=n, p=p_z0x0)'))
m('m-seed-global', 'U04 R01', P, ('  rng = np.random.default_rng(seed)\n\n  # Include', '  np.random.seed(seed)\n  rng = np.random.default_rng(seed)\n\n  # Include'))
m('m-softmax-global', 'U04', P, ('p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))', 'p_z0x1 = softmax(.4 * np.random.standard_normal(size=support_size))'))
m('m-gp-none', 'U04 U06', N_, ('random_state=rng)', 'random_state=None)'))
m('m-gp-global', 'U04 U06', N_, ('random_state=rng)', 'random_state=np.random.mtrand._rand)'))
# U05
m('m-vcov', 'U05', P, ('cov_v.append(1 * np.identity(v_dim[i]))', 'cov_v.append(1 * np.identity(v_dim[1]))'))
m('m-late', 'U05', P, ('''    def f(n, parents):
      del n  # unused
      return scm.normal_cpd(parents, [alpha], mean, cov)

    return f
''', '''    def f(n, parents):
      del n, alpha  # unused
      return scm.normal_cpd(parents, [gamma[-1]], mean, cov)

    return f
'''))
m('m-latebind', 'U05', P, ("    cpds['Z' + str(i)] = make_z_cpd(alpha[i], mu_z[i], cov_z[i])", "    cpds['Z' + str(i)] = lambda n, parents: scm.normal_cpd(parents, [alpha[i]], mu_z[i], cov_z[i])"))
m('m-beta-shift', 'U05', P, ('return scm.normal_cpd(parents, beta, mean=mu_y, cov=cov_y)', 'return scm.normal_cpd(parents[1:], beta[1:], mean=mu_y, cov=cov_y)'))
m('m-z0swap', 'U05', P, ('distributions=[z0x0_cpd, z0x1_cpd])', 'distributions=[z0x0_cpd, z0x0_cpd])'))
m('m-softmax', 'U05', P, ('return e_x / e_x.sum(axis=0)', 'return e_x / e_x.max(axis=0)'))
m('m-onenoise', 'U05', P, ('return np.random.multivariate_normal(mean=mean, cov=cov, size=n)', 'return np.tile(np.random.multivariate_normal(mean=mean, cov=cov), (n, 1))'))
m('m-supp2', 'U05', P, ('return np.array([z0_support[int(i)] for i in idx])', 'return np.array([z0_support[int(i) // 2] for i in idx])'))
# U06
m('m-gpseed', 'U06', N_, ('    y = fns[-1].sample_y(x, 1, random_state=rng)', '    y = fns[-1].sample_y(x, 1, random_state=seed)'))
m('m-gplate', 'U06', N_, ('output.append(fns[d].predict', 'output.append(fns[0].predict'))
m('m-grid', 'U06', N_, ('* (max_x - min_x) + min_x', '* max_x + min_x'))
m('m-nofit', 'U06', N_, ('    fns[-1].fit(x, y)', '    fns[0].fit(x, y)'))
m('m-seed0', 'U06', N_, ('  if seed is None:', '  if not seed:'))
m('m-refit', 'U06', N_, ('      output.append(fns[d].predict(x.reshape(x.shape[0], -1)))', '      p = fns[d].predict(x.reshape(x.shape[0], -1))\n      fns[d].fit(x, p)\n      output.append(p)'))
# S06
m('m-varx', 'S06', X, ('var_x = mu_x * (1 - mu_x)', 'var_x = .25 - (alpha * p)**2 * .9'))
m('m-pz0u1', 'S06', X, ('(1 - g(alpha_1)) / 2) * p', '(1 - g(alpha_1)) / 4) * p'))
m('m-taufd', 'S06', X, ('tau = gamma * (g(beta) - .5)', 'tau = gamma * (g(beta) - g(-beta)) / 2 * 1.01'))
m('m-scm-sizes', 'S06', X, ('    return np.random.binomial(1, g(alpha_1 * parents[0]), size=n)', '    return np.random.binomial(1, g(alpha_1 * parents[0].mean()), size=n)'))
m('m-noise1', 'S06', X, ('np.random.normal(size=len(parents[0])) + tau', 'np.random.normal() + tau'))
m('m-alpha-range', 'S06', X, ('alpha = np.random.uniform(-.3, .3)', 'alpha = np.random.uniform(-.6, .6)'))
m('m-coef', 'S06', X, ('"alpha_1": alpha_1,', '"alpha_1": alpha_2,'))
# R01
m('m-unseeded', 'R01', 'data.py', ('np.random.permutation(np.mod', 'np.random.default_rng().permutation(np.mod'))
m('m-set-arms', 'R01', 'bandits.py', ("    lcb_by_arm = {a: [] for a in self._arms}", "    self._arms = list(set(self._arms))\n    lcb_by_arm = {a: [] for a in self._arms}"))
m('m-moduleseed', 'R01', 'data.py', ('class DataGenerator', '_RNG = np.random.RandomState(0)\n\n\nclass DataGenerator'))
m('m-pyrandom', 'R01', 'bandits.py', ('return np.random.choice(self._arms, 2, replace=False)', 'import random\n      return random.sample(self._arms, 2)'))
m('m-class-list', 'R01', 'scm.py', ('  def generate(self, n_samples: int):\n', '  _seen = []\n\n  def generate(self, n_samples: int):\n    self._seen.append(n_samples)\n'))
m('m-default-list', 'R01', 'scm.py', ('  def generate(self, n_samples: int):\n', '  def generate(self, n_samples: int, log=[]):\n    log.append(n_samples)\n'))
m('m-cache', 'R01', P, ('def get_section_5_1_cpds(', 'import functools\n@functools.lru_cache\ndef get_section_5_1_cpds('))
# V01
m('m-plot-ignore', 'V01', V, ('lower = bdata.lcb_by_arm[arm][initial_points_to_ignore:]', 'lower = bdata.lcb_by_arm[arm][:len(num_samples)]'))
m('m-plot-swap', 'V01', V, ('upper = bdata.ucb_by_arm[arm]', 'upper = bdata.ucb_by_arm[arm_list[0]]'))
m('m-plot-x', 'V01', V, ('num_samples = bdata.cum_samples[initial', 'num_samples = bdata.samples_by_arm[arm][initial'))
m('m-plot-neg', 'V01', V, ('num_samples = bdata.cum_samples[initial_points_to_ignore:]', 'num_samples = bdata.cum_samples[:len(bdata.cum_samples) - initial_points_to_ignore]'))
m('m-plot-label', 'V01', V, ('ax.plot(num_samples, mid, label=arm.name)', 'ax.plot(num_samples, mid, label=arm_list[0].name)'))
# refactorings
m('r-masks', ALL, P, ('''    masks_with_z = [np.r_[m, z_idx[n]] for m in masks]
''', '''    masks_with_z = [list(m) + z_idx[n] for m in masks]
'''), ('''    masks_with_v = [np.r_[m, v_idx[n]] for m in masks]
''', '''    masks_with_v = []
    for m in masks:
      masks_with_v.append(np.concatenate([m, v_idx[n]]).astype(int))
'''))
m('r-graph', ALL, P, ('''    parents['V' + str(i)] = []
    parents['Z' + str(i)] = ['V' + str(i)]
''', '''    v_name, z_name = f'V{i}', 'Z%d' % i
    parents.update({v_name: [], z_name: [v_name]})
'''))
m('r-costs', ALL, P, ('costs_with_z = [z_cost + c for c in costs]', 'costs_with_z = list(map(lambda c: c + z_cost, costs))'))
m('r-idx', ALL, P, ('''    z_idx.append(list(range(cum_z_dim[i], cum_z_dim[i + 1])))
''', '''    start = sum(z_dim[:i + 1])
    z_idx.append([start + j for j in range(z_dim[i + 1])])
'''))
m('r-bandits', ALL, P, ('''  lucb_bandit = bandits.LUCBAlgorithm(
      arm_list,
      prob_model=scm_gen,
      error_prob=.05,
      sample_limit=sample_limit,
      units_per_round=units_per_round,
  )
''', '''  options = dict(
      prob_model=scm_gen,
      error_prob=.05,
      sample_limit=sample_limit,
      units_per_round=units_per_round)
  lucb_bandit = bandits.LUCBAlgorithm(arm_list, **options)
'''))
m('r-softmax', ALL, P, ('''  e_x = np.exp(x - np.max(x))
  return e_x / e_x.sum(axis=0)
''', '''  shifted = x - x.max()
  weights = np.exp(shifted)
  total = np.sum(weights)
  return weights / total
'''))
m('r-make-v', ALL, P, ('''    def f(n, parents):
      del parents  # unusued
      return np.random.multivariate_normal(mean=mean, cov=cov, size=n)

    return f
''', '''    return lambda n, parents: np.random.multivariate_normal(mean, cov, n)
'''))
m('r-support', ALL, P, ('return np.array([z0_support[int(i)] for i in idx])', 'return z0_support[idx]'))
m('r-choice', ALL, P, ('''    idx = np.random.choice(support_size, size=n, p=p_z0x0)
    return np.array([z0_support[int(i)] for i in idx])
''', '''    rows = []
    for i in np.random.choice(support_size, n, p=p_z0x0):
      rows.append(z0_support[int(i)])
    return np.array(rows)
'''))
m('r-gp', ALL, N_, ('''    fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
    # Sample from a prior
    y = fns[-1].sample_y(x, 1, random_state=rng)
    # Fit the GP to this prior
    fns[-1].fit(x, y)
''', '''    gp = gaussian_process.GaussianProcessRegressor(kernel=kernel, alpha=alpha)
    gp.fit(x, gp.sample_y(x, n_samples=1, random_state=rng))
    fns.append(gp)
'''))
m('r-outf', ALL, N_, ('''    output = []
    for d in range(out_dim):
      output.append(fns[d].predict(x.reshape(x.shape[0], -1)))
    # We want to return (n_units, out_dim)
    return np.column_stack(output)
''', '''    inputs = x.reshape(len(x), -1)
    return np.column_stack([f.predict(inputs) for f in fns])
'''))
m('r-scm-g', ALL, X, ('''  def g(x):
    return 1 / (1 + np.exp(-x))
''', '''  def g(x):
    e = np.exp(x)
    return e / (1 + e)
'''))
m('r-scm-vary', ALL, X, ('  var_y = mu_y2 - mu_y**2\n', '  var_y = mu_y2 - mu_y * (gamma * mu_z + p * alpha_2)\n'))
m('r-scm-cpd', ALL, X, ('''      "Z": lambda n, parents: np.random.binomial(1, p, size=n),
      "X": lambda n, parents: np.random.binomial(1, .5 + alpha * parents[0]),
''', '''      "Z": lambda n, _: np.random.binomial(n=1, p=p, size=n),
      "X": lambda n, pa: np.random.binomial(1, .5 + alpha * pa[0], size=n),
'''))
m('r-scm-y', ALL, X, ('''    return (np.random.normal(size=len(parents[0])) + tau * parents[1] +
            beta * parents[0])
''', '''    z, x = parents
    noise = np.random.normal(0, 1, len(z))
    return tau * x + beta * z + noise
'''))
m('r-plot', ALL, V, ('''    ax.plot(num_samples, mid, label=arm.name)
    ax.plot(num_samples, lower, color=color, alpha=0.1)
    ax.plot(num_samples, upper, color=color, alpha=0.1)
''', '''    for bound in (lower, upper):
      ax.plot(num_samples, bound, color=color, alpha=0.1)
    ax.plot(num_samples, mid, label=arm.name)
'''))
m('r-plot-helper', ALL, V, ('''  for arm in arm_list:
    color = "tab:blue"
    num_samples = bdata.cum_samples[initial_points_to_ignore:]
    mid = bdata.var_est_by_arm[arm][initial_points_to_ignore:]
''', '''  def tail(values):
    return values[initial_points_to_ignore:]

  num_samples = tail(bdata.cum_samples)
  for arm in arm_list:
    color = "tab:blue"
    mid = tail(bdata.var_est_by_arm[arm])
'''))
m('r-set', ALL, 'scm.py', ('''      if not set(self.parents[var_name]).issubset(samples):
        raise''', '''      missing = set(self.parents[var_name]) - set(samples)
      for _ in missing:
        raise'''))
