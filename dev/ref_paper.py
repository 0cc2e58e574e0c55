"""Refactorings of paper_utils, nonlinear_utils, example_scm and plotting_utils."""
P, N_, X, V = 'paper_utils.py', 'nonlinear_utils.py', 'example_scm.py', 'plotting_utils.py'
import json
HAVE = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
ALL = ' '.join(i for i in HAVE if i[0] in 'SXDUVR' or i in ('A01', 'B01'))
M = []


def m(name, f, *edits):
  M.append((name, [(f,) + e for e in edits], ALL))


def both(name, *edits):
  """In both sections."""
  M.append((name, [(P,) + e + (2,) for e in edits], ALL))


TAU = '''  tau = 0
  tau_max = 0
  # To select a tau on the larger side, we randomly sample 10 of them then
  # choose the first tau that is larger. See the secretary problem.
  for _ in range(10):
    # Generate two random categorical distributions for Z0
    p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
    tau_max = max(
        tau,
        p_z0x1.dot(z0_support).dot(beta[0]) -
        p_z0x0.dot(z0_support).dot(beta[0]))
  while tau < tau_max:  # make sure tau is big enough
    # Generate two random categorical distributions for Z0
    p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
    tau = p_z0x1.dot(z0_support).dot(beta[0]) - p_z0x0.dot(z0_support).dot(
        beta[0])
'''
Z0 = '''  def z0x0_cpd(n, parents):
    del parents
    idx = np.random.choice(support_size, size=n, p=p_z0x0)
    return np.array([z0_support[int(i)] for i in idx])

  def z0x1_cpd(n, parents):
    del parents
    idx = np.random.choice(support_size, size=n, p=p_z0x1)
    return np.array([z0_support[int(i)] for i in idx])

  def z0_cpd(n, parents):
    del n
    return scm.categorical_conditioning(
        parents, 0, distributions=[z0x0_cpd, z0x1_cpd])
'''
both('r-tau-helper', (TAU, '''  def draw_distributions():
    """Two random categorical distributions for Z0 and their effect."""
    p0 = softmax(.4 * rng.standard_normal(size=support_size))
    p1 = softmax(.4 * rng.standard_normal(size=support_size))
    effect = p1.dot(z0_support).dot(beta[0]) - p0.dot(z0_support).dot(beta[0])
    return p0, p1, effect

  tau = 0
  tau_max = 0
  for _ in range(10):
    p_z0x0, p_z0x1, effect = draw_distributions()
    tau_max = max(tau, effect)
  while tau < tau_max:  # make sure tau is big enough
    p_z0x0, p_z0x1, tau = draw_distributions()
'''))
both('r-tau-zero', (TAU, TAU.replace('max(\n        tau,', 'max(\n        0,')))
both('r-z0-factory', (Z0, '''  def make_z0_cpd(p):

    def f(n, parents):
      del parents
      idx = np.random.choice(support_size, size=n, p=p)
      return np.array([z0_support[int(i)] for i in idx])

    return f

  z0_cpds = [make_z0_cpd(p) for p in (p_z0x0, p_z0x1)]

  def z0_cpd(n, parents):
    del n
    return scm.categorical_conditioning(parents, 0, distributions=z0_cpds)
'''))
both('r-z0-inner', (Z0, '''  def z0_cpd(n, parents):
    del n  # the parents tell

    def sample(n, p):
      rows = np.random.choice(support_size, size=n, p=p)
      return z0_support[rows]

    return scm.categorical_conditioning(
        parents,
        0,
        distributions=[
            lambda n, _: sample(n, p_z0x0),
            lambda n, _: sample(n, p_z0x1),
        ])
'''))
both('r-module-z0', (Z0, '''  z0_cpd = _categorical_cpd(z0_support, [p_z0x0, p_z0x1])
'''), ('def softmax(x):\n', '''def _categorical_cpd(support, probs):
  """A CPD that selects rows of support with probs[i] when the parent is i."""

  def one(p):

    def f(n, parents):
      del parents
      return support[np.random.choice(len(support), size=n, p=p)]

    return f

  distributions = [one(p) for p in probs]

  def cpd(n, parents):
    del n
    return scm.categorical_conditioning(parents, 0, distributions)

  return cpd


def softmax(x):
'''))
M[-1] = (M[-1][0], [M[-1][1][0], M[-1][1][1][:3]], ALL)
PREP = '''  for i in range(1, num_back_door_paths + 1):
    strength = rng.uniform(.1, 1.9)
    # V
    mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
    cov_v.append(1 * np.identity(v_dim[i]))
    # Z_i
    mu_z.append(0 * rng.standard_normal(size=z_dim[i]))
    cov_z.append(.1 * np.identity(z_dim[i]))
    # Vi->X
    gamma.append(strength * rng.standard_normal(size=v_dim[i]))
    # Vi->Zi
    alpha.append(.5 * strength * rng.standard_normal(size=(v_dim[i], z_dim[i])))
    ## Zi->Y
    beta.append((2 - strength) * rng.standard_normal(size=(z_dim[i])))
'''
both('r-prep-normal', (PREP, PREP.replace('rng.standard_normal(size=', 'rng.normal(size=')))
both('r-prep-zip', (PREP, '''  for i, (dv, dz) in enumerate(zip(v_dim[1:], z_dim[1:]), start=1):
    if i > num_back_door_paths:
      break
    strength = rng.uniform(.1, 1.9)
    mu_v.append(0 * rng.standard_normal(size=dv))
    cov_v.append(np.eye(dv))
    mu_z.append(0 * rng.standard_normal(size=dz))
    cov_z.append(.1 * np.eye(dz))
    gamma.append(strength * rng.standard_normal(size=dv))
    alpha.append(.5 * strength * rng.standard_normal(size=(dv, dz)))
    beta.append((2 - strength) * rng.standard_normal(size=dz))
'''))
both('r-prep-names', (PREP, PREP.replace('size=v_dim[i]', 'size=n_v').replace('v_dim[i]', 'n_v').replace('z_dim[i]', 'n_z').replace('    strength = rng', '    n_v, n_z = v_dim[i], z_dim[i]\n    strength = rng')))
m('r-51-partial', P, ('''  for i in range(1, num_back_door_paths + 1):
    cpds['V' + str(i)] = make_v_cpd(mu_v[i], cov_v[i])
    cpds['Z' + str(i)] = make_z_cpd(alpha[i], mu_z[i], cov_z[i])
''', '''  for i in range(1, num_back_door_paths + 1):
    cpds.update({
        f'V{i}': make_v_cpd(mu_v[i], cov_v[i]),
        f'Z{i}': make_z_cpd(alpha[i], mu_z[i], cov_z[i]),
    })
'''))
m('r-51-lambda', P, ('''  for i in range(1, num_back_door_paths + 1):
    cpds['V' + str(i)] = make_v_cpd(mu_v[i], cov_v[i])
    cpds['Z' + str(i)] = make_z_cpd(alpha[i], mu_z[i], cov_z[i])
''', '''  for i in range(1, num_back_door_paths + 1):
    cpds['V%d' % i] = (
        lambda n, _, i=i: np.random.multivariate_normal(mu_v[i], cov_v[i], n))
    cpds['Z%d' % i] = (
        lambda _, ps, i=i: scm.normal_cpd(ps, [alpha[i]], mu_z[i], cov_z[i]))
'''))
m('r-51-xy', P, ('''  def x_cpd(n, parents):
    del n
    return scm.logistic_linear_bernoulli_cpd(parents, gamma)

  def y_cpd(n, parents):
    del n
    return scm.normal_cpd(parents, beta, mean=mu_y, cov=cov_y)

  cpds = {
      'X': x_cpd,
      'Y': y_cpd,
  }
''', '''  cpds = dict(
      X=lambda n, parents: scm.logistic_linear_bernoulli_cpd(parents, gamma),
      Y=lambda n, parents: scm.normal_cpd(parents, beta, mu_y, cov_y))
'''))
GRAPH = '''  var_names = []
  parents = {
      'Z0': ['X'],
      'X': [],
      'Y': ['Z0'],
  }
  cov_variables = ['Z0']
  treatment_variable = 'X'
  response_variable = 'Y'

  for i in range(1, num_back_door_paths + 1):
    var_names.append('V' + str(i))
    var_names.append('Z' + str(i))
    cov_variables.append('Z' + str(i))
    parents['V' + str(i)] = []
    parents['Z' + str(i)] = ['V' + str(i)]
    parents['Y'].append('Z' + str(i))
    parents['X'].append('V' + str(i))

  cov_variables.extend(['V' + str(i) for i in range(1, num_back_door_paths + 1)])
  var_names.extend(['X', 'Z0', 'Y'])
'''
m('r-graph-comp', P, (GRAPH, '''  paths = range(1, num_back_door_paths + 1)
  v_names = ['V' + str(i) for i in paths]
  z_names = ['Z' + str(i) for i in paths]
  var_names = []
  for v, z in zip(v_names, z_names):
    var_names += [v, z]
  var_names += ['X', 'Z0', 'Y']
  parents = {'Z0': ['X'], 'X': v_names, 'Y': ['Z0'] + z_names}
  parents.update({v: [] for v in v_names})
  parents.update({z: [v] for v, z in zip(v_names, z_names)})
  cov_variables = ['Z0'] + z_names + v_names
  treatment_variable = 'X'
  response_variable = 'Y'
'''))
m('r-graph-f', P, (GRAPH, '''  treatment_variable, response_variable = 'X', 'Y'
  var_names, parents = [], {'X': [], 'Z0': ['X'], 'Y': ['Z0']}
  cov_variables = ['Z0']
  for i in range(1, num_back_door_paths + 1):
    v, z = f'V{i}', f'Z{i}'
    var_names.extend((v, z))
    cov_variables.append(z)
    parents[v], parents[z] = [], [v]
    parents['X'].append(v)
    parents['Y'].append(z)
  cov_variables += [f'V{i + 1}' for i in range(num_back_door_paths)]
  var_names += ['X', 'Z0', 'Y']
'''))
m('r-graph-helper', P, (GRAPH, '''  var_names, parents, cov_variables = _section_5_graph(num_back_door_paths)
  treatment_variable = 'X'
  response_variable = 'Y'
'''), ('def generate_example_from_cpd(', '''def _section_5_graph(num_back_door_paths):
  """The variables, their parents and the covariates."""
  pairs = [('V' + str(i), 'Z' + str(i))
           for i in range(1, num_back_door_paths + 1)]
  parents = {
      'Z0': ['X'],
      'X': [v for v, _ in pairs],
      'Y': ['Z0'] + [z for _, z in pairs],
  }
  for v, z in pairs:
    parents[v] = []
    parents[z] = [v]
  names = [name for pair in pairs for name in pair] + ['X', 'Z0', 'Y']
  covs = ['Z0'] + [z for _, z in pairs] + [v for v, _ in pairs]
  return names, parents, covs


def generate_example_from_cpd('''))
IDX = '''  total_z_dim = sum(z_dim)
  z_idx = [list(range(z_dim[0]))]
  v_idx = [[]]
  cum_z_dim = np.cumsum(z_dim)
  cum_v_dim = np.cumsum(v_dim)

  for i in range(num_back_door_paths):
    z_idx.append(list(range(cum_z_dim[i], cum_z_dim[i + 1])))
    v_idx.append(
        list(range(total_z_dim + cum_v_dim[i], total_z_dim + cum_v_dim[i + 1])))
'''
m('r-idx-offset', P, (IDX, '''  z_idx, v_idx = [list(range(z_dim[0]))], [[]]
  z_offset, v_offset = z_dim[0], sum(z_dim) + v_dim[0]
  for i in range(1, num_back_door_paths + 1):
    z_idx.append(list(range(z_offset, z_offset + z_dim[i])))
    v_idx.append(list(range(v_offset, v_offset + v_dim[i])))
    z_offset += z_dim[i]
    v_offset += v_dim[i]
'''))
m('r-idx-pad', P, (IDX, '''  total_z_dim = sum(z_dim)
  cum_z_dim = np.cumsum(z_dim)
  cum_v_dim = total_z_dim + np.cumsum(v_dim)
  z_idx = [list(range(z_dim[0]))] + [
      list(range(cum_z_dim[i], cum_z_dim[i + 1]))
      for i in range(num_back_door_paths)
  ]
  v_idx = [[]] + [
      list(range(cum_v_dim[i], cum_v_dim[i + 1]))
      for i in range(num_back_door_paths)
  ]
'''))
m('r-idx-split', P, (IDX, '''  total_z_dim = sum(z_dim)
  z_idx = np.split(np.arange(total_z_dim), np.cumsum(z_dim)[:-1])
  v_idx = np.split(total_z_dim + np.arange(sum(v_dim)), np.cumsum(v_dim)[:-1])
'''))
REC = '''  def generate_selection_masks(n, z_cost, v_cost):
    if n == 1:
      return [z_idx[n], v_idx[n]], ['Z_1', 'V_1'], [z_cost, v_cost]
    masks, names, costs = generate_selection_masks(n - 1, z_cost, v_cost)
    masks_with_z = [np.r_[m, z_idx[n]] for m in masks]
    names_with_z = [name + 'Z_' + str(n) for name in names]
    costs_with_z = [z_cost + c for c in costs]
    masks_with_v = [np.r_[m, v_idx[n]] for m in masks]
    names_with_v = [name + 'V_' + str(n) for name in names]
    costs_with_v = [v_cost + c for c in costs]
    return (
        masks_with_z + masks_with_v,
        names_with_z + names_with_v,
        costs_with_z + costs_with_v,
    )

  (masks, names, costs) = generate_selection_masks(num_back_door_paths, z_cost,
                                                   v_cost)
'''
m('r-rec-iter', P, (REC, '''  masks, names, costs = [z_idx[1], v_idx[1]], ['Z_1', 'V_1'], [z_cost, v_cost]
  for n in range(2, num_back_door_paths + 1):
    masks = [np.r_[m, idx] for idx in (z_idx[n], v_idx[n]) for m in masks]
    names = [name + v + str(n) for v in ('Z_', 'V_') for name in names]
    costs = [extra + c for extra in (z_cost, v_cost) for c in costs]
'''))
m('r-rec-product', P, (REC, '''  masks, names, costs = [], [], []
  # the choice for the first path varies fastest
  for choice in itertools.product('ZV', repeat=num_back_door_paths):
    choice = choice[::-1]
    masks.append(np.concatenate([
        (z_idx if c == 'Z' else v_idx)[i] for i, c in enumerate(choice, 1)]))
    names.append(''.join(f'{c}_{i}' for i, c in enumerate(choice, 1)))
    costs.append(sum(z_cost if c == 'Z' else v_cost for c in choice))
'''), ('from typing import List', 'import itertools\nfrom typing import List'))
m('r-rec-module', P, (REC, '''  masks, names, costs = _adjustment_sets(z_idx, v_idx, num_back_door_paths,
                                         z_cost, v_cost)
'''), ('def generate_example_from_cpd(', '''def _adjustment_sets(z_idx, v_idx, n, z_cost, v_cost):
  """The columns, name and cost of every choice of Z_i or V_i."""
  with_z = ([z_idx[n]], ['Z_' + str(n)], [z_cost])
  with_v = ([v_idx[n]], ['V_' + str(n)], [v_cost])
  if n == 1:
    return tuple(a + b for a, b in zip(with_z, with_v))
  masks, names, costs = _adjustment_sets(z_idx, v_idx, n - 1, z_cost, v_cost)
  out = [], [], []
  for idx, name, cost in zip(*(a + b for a, b in zip(with_z, with_v))):
    out[0].extend(np.r_[m, idx] for m in masks)
    out[1].extend(s + name for s in names)
    out[2].extend(c + cost for c in costs)
  return out


def generate_example_from_cpd('''))
BANDITS = '''  lucb_bandit = bandits.LUCBAlgorithm(
      arm_list,
      prob_model=scm_gen,
      error_prob=.05,
      sample_limit=sample_limit,
      units_per_round=units_per_round,
  )
  se_bandit = bandits.SuccessiveEliminationAlgorithm(
      arm_list,
      prob_model=scm_gen,
      error_prob=.05,
      sample_limit=sample_limit,
      units_per_round=units_per_round,
  )
  uniform_bandit = bandits.UniformAlgorithm(
      arm_list,
      prob_model=scm_gen,
      error_prob=.05,
      sample_limit=sample_limit,
      units_per_round=units_per_round,
  )

  return (
      scm_gen,
      arm_list,
      lucb_bandit,
      se_bandit,
      uniform_bandit,
  )'''
m('r-bandits-loop', P, (BANDITS, '''  settings = {
      'prob_model': scm_gen,
      'error_prob': .05,
      'sample_limit': sample_limit,
      'units_per_round': units_per_round,
  }
  algorithms = (bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm,
                bandits.UniformAlgorithm)
  return (scm_gen, arm_list, *(a(arm_list, **settings) for a in algorithms))'''))
m('r-bandits-partial', P, (BANDITS, '''  def make(algorithm):
    return algorithm(arm_list, scm_gen, error_prob=.05,
                     sample_limit=sample_limit,
                     units_per_round=units_per_round)

  return (scm_gen, arm_list, make(bandits.LUCBAlgorithm),
          make(bandits.SuccessiveEliminationAlgorithm),
          make(bandits.UniformAlgorithm))'''))
ARMS = '''  arm_list = [
      arms.SampleSplittingArm(
          'frontdoor',
          eta=parameters.FrontDoorLinearFiniteZ(
              n_features=z_dim[0],
              min_units=5,
              min_overlap=.25,
          ),
          data_transformer=select_z0_fn,
          ci_algorithm=ci_algorithm,
          cost=z0_cost,
          sub_gscale=sub_gscale,
          tau_bound=2,
          burn_in=1000,
          rho=1,
      )
  ]
  # And including all the back_door arms (skipping the first element that
  # corresponded to Z0.
  for fn, name, cost, dim in zip(selection_fns, names, costs, dims):
    arm_list.append(
        arms.SampleSplittingArm(
            name,
            eta=parameters.AIPWLinearLogistic(
                n_features=dim, min_units=5, min_overlap=.25),
            data_transformer=fn,
            ci_algorithm=ci_algorithm,
            cost=cost,
            sub_gscale=sub_gscale,
            tau_bound=2,
            burn_in=1000,
            rho=1,
        ))
'''
m('r-arms-helper', P, (ARMS, '''  def make_arm(name, eta, data_transformer, cost):
    return arms.SampleSplittingArm(
        name,
        eta=eta,
        data_transformer=data_transformer,
        ci_algorithm=ci_algorithm,
        cost=cost,
        sub_gscale=sub_gscale,
        tau_bound=2,
        burn_in=1000,
        rho=1,
    )

  frontdoor = parameters.FrontDoorLinearFiniteZ(
      n_features=z_dim[0], min_units=5, min_overlap=.25)
  arm_list = [make_arm('frontdoor', frontdoor, select_z0_fn, z0_cost)]
  arm_list.extend(
      make_arm(
          names[i],
          parameters.AIPWLinearLogistic(dims[i], min_units=5, min_overlap=.25),
          selection_fns[i], costs[i]) for i in range(len(names)))
'''))
m('r-arms-common', P, (ARMS, '''  common = dict(ci_algorithm=ci_algorithm, sub_gscale=sub_gscale, tau_bound=2,
                burn_in=1000, rho=1)
  overlap = dict(min_units=5, min_overlap=.25)
  arm_list = []
  arm_list.append(
      arms.SampleSplittingArm(
          name='frontdoor',
          eta=parameters.FrontDoorLinearFiniteZ(n_features=z_dim[0], **overlap),
          data_transformer=select_z0_fn, cost=z0_cost, **common))
  for mask, name, cost in zip(masks, names, costs):
    eta = parameters.AIPWLinearLogistic(n_features=len(mask), **overlap)
    arm_list.append(
        arms.SampleSplittingArm(
            name=name, eta=eta,
            data_transformer=data.get_coordinate_mask_fn(mask),
            cost=cost, **common))
'''))
m('r-latex', P, ('''    names = ['$' + n + '$' for n in names]
''', '''    names = [f'${n}$' for n in names]
'''))
m('r-latex-map', P, ('''  if latex_names:
    names = ['$' + n + '$' for n in names]
''', '''  if latex_names:
    for i, name in enumerate(names):
      names[i] = '$' + name + '$'
'''))
m('r-subg', P, ('np.var(d.exp) + np.var(d.cov) + np.var(d.rsp)', 'sum(np.var(x) for x in (d.cov, d.exp, d.rsp))'))
FY = '''  f_ys = []
  for dim in z_dim:
    f_ys.append(
        nonlinear_utils.generate_random_nd_function(
            dim=dim,
            out_dim=1,
            kernel=kernel,
            min_x=-2,
            max_x=2,
            n_points=10,
            seed=int(rng.integers(10000)),
            alpha=1e0))

  # f_y should have shape (n_units,1)
  f_y = lambda x: np.sum([f(x[i]) for i, f in enumerate(f_ys)], axis=0)

  f_xs = []
  for dim in v_dim[1:]:
    f_xs.append(
        nonlinear_utils.generate_random_nd_function(
            dim=dim,
            out_dim=1,
            kernel=kernel,
            min_x=-2,
            max_x=2,
            n_points=10,
            seed=int(rng.integers(10000)),
            alpha=1e0))

  # f_x should have shape (n_units,1)
  f_x = lambda x: np.sum([f(x[i]) for i, f in enumerate(f_xs)], axis=0)
'''
m('r-52-helper', P, (FY, '''  def random_function(dim, out_dim, bound):
    return nonlinear_utils.generate_random_nd_function(
        dim=dim,
        out_dim=out_dim,
        kernel=kernel,
        min_x=-bound,
        max_x=bound,
        n_points=10,
        seed=int(rng.integers(10000)),
        alpha=1e0)

  f_ys = [random_function(dim, 1, 2) for dim in z_dim]

  def f_y(x):
    return np.sum([f(xi) for f, xi in zip(f_ys, x)], axis=0)

  f_xs = [random_function(dim, 1, 2) for dim in v_dim[1:]]

  def f_x(x):
    return sum(f(xi) for f, xi in zip(f_xs, x))
'''))
m('r-52-additive', P, (FY, '''  def additive(dims):
    """A sum of random functions of the parents, with shape (n_units, 1)."""
    fs = []
    for dim in dims:
      fs.append(
          nonlinear_utils.generate_random_nd_function(
              dim, 1, kernel=kernel, min_x=-2, max_x=2, n_points=10,
              seed=int(rng.integers(10000)), alpha=1.0))
    return lambda x: np.sum([f(x[i]) for i, f in enumerate(fs)], axis=0)

  f_y = additive(z_dim)
  f_x = additive(v_dim[1:])
'''))
m('r-52-xdef', P, ('''  def sigmoid(x):
    return 1 / (1 + np.exp(-x))

  def bernoulli(x):
    return np.random.binomial(1, x)

  add_noise = scm.add_gaussian_noise
  # Next, we define the CPDs
  cpds = {
      'X': lambda n, parents: bernoulli(sigmoid(f_x(parents))).flatten(),
      'Y': lambda n, parents: add_noise(f_y(parents), mean=mu_y, cov=cov_y),
  }
''', '''  def x_cpd(n, parents):
    del n
    return scm.logistic_bernoulli_cpd(parents, f_x).flatten()

  def y_cpd(n, parents):
    del n
    return scm.add_gaussian_noise(f_y(parents), mu_y, cov_y)

  cpds = {'X': x_cpd, 'Y': y_cpd}
'''))
m('r-softmax-shift', N_, ('''  e_x = np.exp(x - np.max(x))
  return e_x / e_x.sum(axis=0)
''', '''  e_x = np.exp(x - x.max())
  return e_x / np.sum(e_x, axis=0)
'''))
m('r-softmax-import', P, ('''def softmax(x):
  e_x = np.exp(x - np.max(x))
  return e_x / e_x.sum(axis=0)
''', '''softmax = nonlinear_utils.softmax
'''))
GP = '''  fns = []
  for _ in range(out_dim):
    fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
    # Sample from a prior
    y = fns[-1].sample_y(x, 1, random_state=rng)
    # Fit the GP to this prior
    fns[-1].fit(x, y)
'''
OUT = '''  def out_f(x):
    output = []
    for d in range(out_dim):
      output.append(fns[d].predict(x.reshape(x.shape[0], -1)))
    # We want to return (n_units, out_dim)
    return np.column_stack(output)

  return out_f'''
m('r-gp-helper', N_, (GP, '''  def sample_function():
    gp = gaussian_process.GaussianProcessRegressor(kernel=kernel, alpha=alpha)
    return gp.fit(x, gp.sample_y(x, 1, random_state=rng))

  fns = [sample_function() for _ in range(out_dim)]
'''))
m('r-gp-two', N_, (GP, '''  fns = [
      gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha)
      for _ in range(out_dim)
  ]
  for fn in fns:
    fn.fit(x, fn.sample_y(x, random_state=rng))
'''))
m('r-gp-out', N_, (OUT, '''  def out_f(x):
    x = x.reshape(len(x), -1)
    return np.column_stack([fn.predict(x) for fn in fns])

  return out_f'''))
m('r-gp-out-lambda', N_, (OUT, '''  return lambda x: np.column_stack(
      [fn.predict(x.reshape((x.shape[0], -1))) for fn in fns])'''))
m('r-gp-x', N_, ('''  x1d = np.linspace(0, 1, n_points)
  # create a cartesian product
  x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
''', '''  grid = np.linspace(0, 1, n_points)
  x = np.array(list(itertools.product(grid, repeat=dim)))
  x = min_x + (max_x - min_x) * x
'''))
m('r-gp-rng', N_, ('''  if seed is None:
    seed = np.random.randint(10000)
  rng = np.random.RandomState(seed)
''', '''  rng = np.random.RandomState(
      np.random.randint(10000) if seed is None else seed)
'''))
m('r-bd-y', X, ('''  def y_cpd(_, parents):
    return (np.random.normal(size=len(parents[0])) + tau * parents[1] +
            beta * parents[0])

  cpds = {
      "Z": lambda n, parents: np.random.binomial(1, p, size=n),
      "X": lambda n, parents: np.random.binomial(1, .5 + alpha * parents[0]),
      "Y": y_cpd,
  }
''', '''  def z_cpd(n, parents):
    del parents
    return np.random.binomial(1, p, size=n)

  def x_cpd(n, parents):
    del n
    z, = parents
    return np.random.binomial(1, alpha * z + .5)

  def y_cpd(n, parents):
    z, x = parents
    noise = np.random.normal(size=n)
    return beta * z + tau * x + noise

  cpds = {"Z": z_cpd, "X": x_cpd, "Y": y_cpd}
'''))
m('r-bd-var', X, ('''  cov_xz = alpha * var_z
  var_y = 1 + tau**2 * var_x + beta**2 * var_z + 2 * tau * beta * cov_xz
''', '''  var_y = 1 + tau**2 * var_x + var_z * beta * (beta + 2 * tau * alpha)
'''))
m('r-fd-moments', X, ('''  pz1u1 = (g(beta) * g(alpha_1) + .5 * (1 - g(alpha_1))) * p
  pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
  pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
''', '''  px1u1 = g(alpha_1) * p
  px0u1 = p - px1u1
  pz1u1 = g(beta) * px1u1 + .5 * px0u1
  pz0u1 = p - pz1u1
  pz1u0 = (1 - p) * (g(beta) + .5) / 2
'''))
PLOT = '''  for arm in arm_list:
    color = "tab:blue"
    num_samples = bdata.cum_samples[initial_points_to_ignore:]
    mid = bdata.var_est_by_arm[arm][initial_points_to_ignore:]
    lower = bdata.lcb_by_arm[arm][initial_points_to_ignore:]
    upper = bdata.ucb_by_arm[arm][initial_points_to_ignore:]

    ax.plot(num_samples, mid, label=arm.name)
    ax.plot(num_samples, lower, color=color, alpha=0.1)
    ax.plot(num_samples, upper, color=color, alpha=0.1)
    ax.fill_between(num_samples, lower, upper, alpha=0.2)
'''
m('r-plot-slice', V, (PLOT, '''  shown = slice(initial_points_to_ignore, None)
  num_samples = bdata.cum_samples[shown]
  for arm in arm_list:
    lower, upper = bdata.lcb_by_arm[arm][shown], bdata.ucb_by_arm[arm][shown]
    ax.plot(num_samples, bdata.var_est_by_arm[arm][shown], label=arm.name)
    for bound in (lower, upper):
      ax.plot(num_samples, bound, color="tab:blue", alpha=0.1)
    ax.fill_between(num_samples, lower, upper, alpha=0.2)
'''))
m('r-plot-series', V, (PLOT, '''  skip = initial_points_to_ignore or 0
  samples = bdata.cum_samples[skip:]
  for arm in arm_list:
    mid, lower, upper = (
        series[arm][skip:] for series in (
            bdata.var_est_by_arm, bdata.lcb_by_arm, bdata.ucb_by_arm))
    ax.plot(samples, mid, label=arm.name)
    ax.plot(samples, lower, color="tab:blue", alpha=0.1)
    ax.plot(samples, upper, color="tab:blue", alpha=0.1)
    ax.fill_between(samples, lower, upper, alpha=0.2)
'''))
