"""Refactorings with rarer constructs: data, bandits, scm, parameters."""
A, B, D, P, Q, S, N, E, L = ('arms.py', 'bandits.py', 'data.py', 'parameters.py',
                             'paper_utils.py', 'scm.py', 'nonlinear_utils.py',
                             'example_scm.py', 'plotting_utils.py')
M = []


def _real(file, old, new):
  """The edits that `old` stands for where comment lines are left out."""
  src = open('/repo/causal_effect_bandits/' + file).read()
  if old in src:
    return [(file, old, new)]
  lines = src.splitlines(keepends=True)
  kept = [(i, l) for i, l in enumerate(lines) if not l.lstrip().startswith('#')]
  blank = [(i, l) for i, l in kept]
  want = old.splitlines(keepends=True)
  out = []
  for at in range(len(blank) - len(want) + 1):
    if [l for _, l in blank[at:at + len(want)]] == want:
      lo, hi = blank[at][0], blank[at + len(want) - 1][0]
      real = ''.join(lines[lo:hi + 1])
      if (file, real, new) not in out:
        out.append((file, real, new))
  assert out, (file, old)
  return out


def m(name, ids, *edits):
  out = []
  for e in edits:
    if len(e) > 3 and e[3] == 1:
      out.append(e)
    else:
      found = _real(*e[:3])
      out += [f + (9,) for f in found] if len(e) > 3 else found[:1]
  M.append((name, out, ids))


DD = 'D01 D02 D03 D04 D05 D06 D07 D08 V02 O01 R01'
SS = 'S01 S02 S03 S04 S05 O01 R01 D06'
BB = 'B01 B02 B03 B04 B05 B06 B07 B08 B09 B10 B11 O01 R01'
PP = 'P01 P02 P03 P04 P05 P06 P07 P08 P10 P11 P12 O01 R01 D06'

# ---- data
FOLD = """    data_folds = []
    for i in range(k):
      cov_fold = self.cov[folds == i]
      if self.exp is not None:
        exp_fold = self.exp[folds == i]
      else:
        exp_fold = None
      if self.rsp is not None:
        rsp_fold = self.rsp[folds == i]
      else:
        rsp_fold = None
      data_folds.append(ExpData(cov_fold, exp_fold, rsp_fold))

    return data_folds
"""
m('r-g-kgen', DD, (D, FOLD, """    def parts():
      for i in range(k):
        members = np.flatnonzero(folds == i)
        yield self[members]

    return list(parts())
"""))
m('r-g-kmethod', DD, (D, FOLD, """    return [self._rows(folds == i) for i in range(k)]

  def _rows(self, mask):
    return ExpData(*(None if v is None else v[mask]
                     for v in (self.cov, self.exp, self.rsp)))
"""))
m('r-g-kattrs', DD, (D, FOLD, """    data_folds = []
    for i in range(k):
      fold = ExpData(None, None, None)
      keep = folds == i
      for name in ('cov', 'exp', 'rsp'):
        values = getattr(self, name)
        setattr(fold, name, values[keep] if values is not None else None)
      fold.n_units = fold.cov.shape[0]
      fold.n_features = self.n_features
      data_folds.append(fold)
    return data_folds
"""))
SUB = """    if self.exp is not None:
      exp_in = self.exp[mask]
      exp_out = self.exp[~mask]
    else:
      exp_in = None
      exp_out = None
    if self.rsp is not None:
      rsp_in = self.rsp[mask]
      rsp_out = self.rsp[~mask]
    else:
      rsp_in = None
      rsp_out = None

    in_data = ExpData(self.cov[mask], exp_in, rsp_in)
    ouexp_data = ExpData(self.cov[~mask], exp_out, rsp_out)
    return (in_data, ouexp_data)
"""
m('r-g-subget', DD, (D, SUB, "    return self[mask], self[np.logical_not(mask)]\n"))
m('r-g-subtuple', DD, (D, SUB, "    return tuple(self[m] for m in (mask, ~mask))\n"))
m('r-g-subfn', DD, (D, SUB, """    def pick(values):
      return (None, None) if values is None else (values[mask], values[~mask])

    (cov_in, cov_out), (exp_in, exp_out), (rsp_in, rsp_out) = map(
        pick, (self.cov, self.exp, self.rsp))
    return ExpData(cov_in, exp_in, rsp_in), ExpData(cov_out, exp_out, rsp_out)
"""))
APP = """    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
    if self.exp is not None:
      if new_data.exp is None:
        raise ValueError("new_data.exp is missing but expected")
      exp = np.r_[self.exp, new_data.exp]
    if self.rsp is not None:
      if new_data.rsp is None:
        raise ValueError("new_data.rsp is missing but expected")
      rsp = np.r_[self.rsp, new_data.rsp]

    self.cov, self.exp, self.rsp = cov, exp, rsp
    self.n_units = self.cov.shape[0]
"""
m('r-g-appdict', DD, (D, APP, """    merged = {'cov': np.r_[self.cov, new_data.cov]}
    for name in ('exp', 'rsp'):
      mine, theirs = getattr(self, name), getattr(new_data, name)
      if mine is None:
        continue
      if theirs is None:
        raise ValueError(f"new_data.{name} is missing but expected")
      merged[name] = np.r_[mine, theirs]
    for name, values in merged.items():
      setattr(self, name, values)
    self.n_units = len(self.cov)
"""))
m('r-g-appinit', DD, (D, APP, """    def joined(mine, theirs, name):
      if mine is None:
        return None
      if theirs is None:
        raise ValueError("new_data." + name + " is missing but expected")
      return np.concatenate((mine, theirs))

    cov = joined(self.cov, new_data.cov, "cov")
    exp = joined(self.exp, new_data.exp, "exp")
    rsp = joined(self.rsp, new_data.rsp, "rsp")
    self.__init__(cov, exp, rsp)
"""))
m('r-g-nprop', DD, (D, "    self.n_units = self.cov.shape[0]\n\n  def k_fold", "    self.n_units += new_data.n_units\n\n  def k_fold"))
m('r-g-init', DD, (D, """    if cov is None:
      self.n_units = 0
      self.n_features = 0
    else:
      self.n_units = cov.shape[0]
      if len(cov.shape) == 1:  # one dimensional
        self.n_features = 1
      else:
        self.n_features = cov.shape[1]
    self.cov = cov
""", """    shape = (0, 0) if cov is None else cov.shape
    self.n_units = shape[0]
    self.n_features = 1 if len(shape) == 1 else shape[1]
    self.cov = cov
"""))
COUNT = """    for xi, zi in zip(x, z):
      self.table[xi.tobytes()][
          zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
      self.x_values[xi.tobytes()] = xi
      self.z_values[zi.tobytes()] = zi
"""
m('r-g-count', DD, (D, COUNT, """    for xi, zi in zip(x, z):
      x_key, z_key = xi.tobytes(), zi.tobytes()
      self.table[x_key][z_key] += 1
      self.x_values[x_key], self.z_values[z_key] = xi, zi
"""))
m('r-g-countmap', DD, (D, COUNT, """    x_keys = [xi.tobytes() for xi in x]
    z_keys = [zi.tobytes() for zi in z]
    self.x_values.update(zip(x_keys, x))
    self.z_values.update(zip(z_keys, z))
    for x_key, z_key in zip(x_keys, z_keys):
      self.table[x_key][z_key] += 1
"""))
m('r-g-counter', DD, (D, COUNT, """    counts = collections.Counter()
    for xi, zi in zip(x, z):
      counts[xi.tobytes(), zi.tobytes()] += 1
      self.x_values[xi.tobytes()] = xi
      self.z_values[zi.tobytes()] = zi
    for (x_key, z_key), count in counts.items():
      self.table[x_key][z_key] = float(count)
"""))
NORM = """    for x_key in self.x_values:
      x_table = self.table[x_key]
      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
      for z_key in self.z_values:
        x_table[z_key] = max(x_table[z_key] / num_samples, self.min_prob)
      # Since we lower bounded the probability, we may have added some extra
      # probability mass, which we will adjust by scaling the rest of the
      # probabilities down; this is the added_mass calculation.
"""
m('r-g-predict', DD, (D, """    for zi, xi in zip(z, x):
      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
    return np.array(probs)
""", """    for zi, xi in zip(z, x):
      row = self.table.get(xi.tobytes())
      probs.append(0.0 if row is None else row.get(zi.tobytes(), 0.0))
    return np.array(probs)
"""))
m('r-g-predict2', DD, (D, """    for zi, xi in zip(z, x):
      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
    return np.array(probs)
""", """    for i in range(min(len(z), len(x))):
      x_key, z_key = x[i].tobytes(), z[i].tobytes()
      if x_key in self.table and z_key in self.table[x_key]:
        probs.append(self.table[x_key][z_key])
      else:
        probs.append(0.0)
    return np.array(probs)
"""))
m('r-g-tabreset', DD, (D, """    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.n_units = 0
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
    self.x_values = {}
    self.z_values = {}
    self.min_ratio_to_uniform = min_ratio_to_uniform
""", """    self._clear(0)
    self.min_ratio_to_uniform = min_ratio_to_uniform

  def _clear(self, n_units):
    self.n_units = n_units
    self.table = collections.defaultdict(lambda: collections.defaultdict(float))
    self.x_marginal = collections.defaultdict(float)
    self.x_values, self.z_values = {}, {}
"""), (D, """    self.n_units = len(x)
    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
    self.x_values = {}
    self.z_values = {}
""", "    self._clear(len(x))\n"))
m('r-g-excess', DD, (D, """      if total_excess > 0:
        for z_key in self.z_values:
          excess = x_table[z_key] - self.min_prob
          x_table[z_key] -= added_mass * excess / total_excess
""", """      if total_excess <= 0:
        continue
      shrink = added_mass / total_excess
      for z_key, p in list(x_table.items()):
        x_table[z_key] = p - shrink * (p - self.min_prob)
"""))
m('r-g-minprob', DD, (D, """    self.min_prob = 1 / support_size_estimate / self.min_ratio_to_uniform
    if self.min_prob > 1:
      self.min_prob = .2
""", """    floor = 1 / (support_size_estimate * self.min_ratio_to_uniform)
    self.min_prob = floor if floor <= 1 else .2
"""))
m('r-g-maskcls', DD, (D, """  def fn(d):
    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)

  return fn
""", """  class Mask:

    def __call__(self, d):
      return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)

  return Mask()
"""))
m('r-g-lineargen', DD, (D, "    t_means = 1 / (1 + np.exp(-x.dot(self._gamma)))\n    t = np.random.binomial(1, t_means)\n", "    logits = x @ self._gamma\n    t = np.random.binomial(n=1, p=1. / (np.exp(-logits) + 1.))\n"),
  (D, "    y = x.dot(self._beta) + self._tau * t + noise\n", "    y = np.dot(x, self._beta) + noise\n    y = y + t * self._tau\n"))

# ---- bandits
m('r-g-record', BB, (B, "class UniformAlgorithm(BAIBanditAlgorithm):", """class _Trace:
  \"\"\"Collects what the arms report in every round.\"\"\"

  def __init__(self, all_arms):
    self.lcb, self.ucb, self.var_est, self.samples = (
        {a: [] for a in all_arms} for _ in range(4))
    self.totals = []

  def add(self, arm, n):
    self.lcb[arm].append(arm.cost * arm.ci[0])
    self.ucb[arm].append(arm.cost * arm.ci[1])
    self.var_est[arm].append(arm.cost * arm.var_est)
    self.samples[arm].append(n)

  def result(self, best):
    return BanditData(self.lcb, self.ucb, self.var_est, self.samples,
                      self.totals, best)


class UniformAlgorithm(BAIBanditAlgorithm):"""),
  (B, """    lcb_by_arm = {a: [] for a in self._arms}
    ucb_by_arm = {a: [] for a in self._arms}
    var_est_by_arm = {a: [] for a in self._arms}
    cum_samples = []
    samples_by_arm = {a: [] for a in self._arms}

    total_samples = 0

    while True:
""", "    trace = _Trace(self._arms)\n    total_samples = 0\n\n    while True:\n"),
  (B, """        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round)

      total_samples += self._num_arms * self.units_per_round
      cum_samples.append(total_samples)
""", """        trace.add(arm, self.units_per_round)

      total_samples += self._num_arms * self.units_per_round
      trace.totals.append(total_samples)
"""),
  (B, """    return BanditData(lcb_by_arm, ucb_by_arm, var_est_by_arm, samples_by_arm,
                      cum_samples, best_arms)


class LUCB""", "    return trace.result(best_arms)\n\n\nclass LUCB"))
m('r-g-source', BB, (B, "class UniformAlgorithm(BAIBanditAlgorithm):", """def _next_batch(prob_model, all_data, arm, n):
  if all_data is None:
    return prob_model.generate(n)
  first = arm.get_num_units()
  return all_data[first:first + n]


class UniformAlgorithm(BAIBanditAlgorithm):"""),
  (B, """      if stable_order:
        n_start = self._arms[0].get_num_units()
        new_samples = all_data[n_start:n_start + self.units_per_round]
      else:
        new_samples = self._prob_model.generate(self.units_per_round)

      for arm in self._arms:
""", """      new_samples = _next_batch(self._prob_model, all_data, self._arms[0],
                                self.units_per_round)
      for arm in self._arms:
"""),
  (B, """        if not stable_order:
          new_samples = self._prob_model.generate(self.units_per_round)
        else:
          n_start = arm.get_num_units()
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))
""", """        arm.update(
            _next_batch(self._prob_model, all_data, arm, self.units_per_round),
            self.error_prob / self._num_arms)
""", 2))
m('r-g-bestmask', BB, (B, """            [v == min(var_ests) for v in var_ests])
        break

""", """            list(map(min(var_ests).__eq__, var_ests)))
        break

"""))
m('r-g-besteq', BB, (B, """        best_arms = self._select_arms_with_mask(
            [v == min(var_ests) for v in var_ests])
        break

""", """        best_arms = self._select_arms_with_mask(var_ests == np.min(var_ests))
        break

"""))
m('r-g-endsort', BB, (B, """    min_var_arm = np.argmin(var_ests)
    remaining_lcbs = [
        lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
    ]
    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
            [self._arms[min_var_arm]])
""", """    winner = np.argmin(var_ests)
    others = np.arange(self._num_arms) != winner
    done = ucbs[winner] < np.min(lcbs[others]) + self.error_tol
    return done, [self._arms[winner]]
"""))
m('r-g-enddel', BB, (B, """    remaining_lcbs = [
        lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
    ]
    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
            [self._arms[min_var_arm]])
""", """    gap = np.delete(lcbs, min_var_arm).min() - ucbs[min_var_arm]
    return (gap + self.error_tol > 0, [self._arms[min_var_arm]])
"""))
m('r-g-bounds', BB, (B, """    ucbs = np.array([a.cost * a.ci[1] for a in self._arms])
    lcbs = np.array([a.cost * a.ci[0] for a in self._arms])
    sigma2s = np.array([a.cost * a.var_est for a in self._arms])
    return (lcbs, ucbs, sigma2s)
""", """    rows = [(a.ci[0], a.ci[1], a.var_est) for a in self._arms]
    costs = np.array([a.cost for a in self._arms])
    return tuple(costs * np.array(column) for column in zip(*rows))
"""))
m('r-g-bounds2', BB, (B, """    ucbs = np.array([a.cost * a.ci[1] for a in self._arms])
    lcbs = np.array([a.cost * a.ci[0] for a in self._arms])
    sigma2s = np.array([a.cost * a.var_est for a in self._arms])
    return (lcbs, ucbs, sigma2s)
""", """    lcbs, ucbs, sigma2s = [], [], []
    for a in self._arms:
      low, high = a.ci
      for out, value in ((lcbs, low), (ucbs, high), (sigma2s, a.var_est)):
        out.append(a.cost * value)
    return np.array(lcbs), np.array(ucbs), np.array(sigma2s)
"""))
m('r-g-rounds', BB, (B, """    candidate_arms = list(self._arms)  # copy arms.
    epoch = 1
    while len(candidate_arms) > 1:
      epoch += 1
      if total""", """    candidate_arms = self._arms[:]
    for epoch in itertools.count(1):
      if len(candidate_arms) <= 1:
        break
      if total"""), (B, "import dataclasses\n", "import dataclasses\nimport itertools\n"))
ELIM = """      new_candidate_arms = []
      for arm, is_low_var in zip(candidate_arms, low_var_mask):
        if is_low_var or lcb_by_arm[arm][-1] < lowest_ucb:
          new_candidate_arms.append(arm)
      candidate_arms = new_candidate_arms
"""
m('r-g-elim', BB, (B, ELIM, """      survives = lambda pair: pair[1] or lcb_by_arm[pair[0]][-1] < lowest_ucb
      candidate_arms = [
          arm for arm, _ in filter(survives, zip(candidate_arms, low_var_mask))
      ]
"""))
m('r-g-elim2', BB, (B, ELIM, """      candidate_arms = [
          arm for i, arm in enumerate(candidate_arms)
          if low_var_mask[i] or not lcb_by_arm[arm][-1] >= lowest_ucb
      ]
""")) 
m('r-g-elimmark', BB, (B, """        samples_by_arm[arm].append(0)

      for arm in candidate_arms:
        samples_by_arm[arm][-1] = self.units_per_round
""", """        samples_by_arm[arm].append(
            self.units_per_round if any(arm is c for c in candidate_arms) else 0)
"""))
m('r-g-lucbpick', BB, (B, """    high_ucb = max(ucbs[best_arm_mask])
    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]
""", """    is_best = np.array(best_arm_mask)
    high_ucb = np.max(ucbs[is_best])
    high_ucb_mask = is_best & (ucbs == high_ucb)
"""))
m('r-g-lucbidx', BB, (B, """    u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
""", """    u_index = np.random.choice(
        [i for i, keep in enumerate(high_ucb_mask) if keep])
"""))
m('r-g-lucbinit', BB, (B, """    if stable_order:
      new_samples = all_data[:self.units_per_round]
    else:
      new_samples = self._prob_model.generate(self.units_per_round)
""", """    new_samples = (
        all_data[slice(self.units_per_round)]
        if stable_order else self._prob_model.generate(self.units_per_round))
"""))
m('r-g-lucbalways', BB, (B, """    while True:
      if total_samples > self.sample_limit:
        _, _, var_ests = self.collect_bounds()
        best_arm = self._select_arms_with_mask(
""", """    game_ends = False
    while not game_ends:
      if total_samples > self.sample_limit:
        _, _, var_ests = self.collect_bounds()
        best_arm = self._select_arms_with_mask(
"""), (B, """        (game_ends, best_arm) = self._check_fixed_conf_end_condition()
        if game_ends:
          break
""", "        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n"))

# ---- scm
m('r-g-scmdict', SS, (S, """      parent_samples = [samples[p] for p in self.parents[var_name]]

      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
""", """      samples[var_name] = self._draw(var_name, n_samples, samples)
"""), (S, "  def compute_treatment_effect(", """  def _draw(self, name, n, so_far):
    cpd = self.cpds[name]
    return cpd(n, [so_far[p] for p in self.parents[name]])

  def compute_treatment_effect("""))
EFF = """    old_cpds = self.cpds
    self.cpds = dict(old_cpds)
    try:
      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
      self.cpds[self.treatment_variable] = treatment_cpd
      treatment_sample = self.generate(n_samples)

      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
      self.cpds[self.treatment_variable] = control_cpd
      control_sample = self.generate(n_samples)
    finally:
      self.cpds = old_cpds
    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
"""
m('r-g-effctx', SS, (S, EFF, """    means = []
    for level in (1, 0):
      with self._intervene(level):
        means.append(np.mean(self.generate(n_samples).rsp))
    return means[0] - means[1]

  @contextlib.contextmanager
  def _intervene(self, level):
    kept = self.cpds
    self.cpds = {**kept,
                 self.treatment_variable: lambda n, parents: deterministic_cpd(
                     n, level)}
    try:
      yield
    finally:
      self.cpds = kept
"""), (S, "from typing import List\n", "import contextlib\nfrom typing import List\n"))
m('r-g-effcopy', SS, (S, EFF, """    def mean_response(level):
      cpds = dict(self.cpds)
      cpds[self.treatment_variable] = (
          lambda n, parents: deterministic_cpd(n, level))
      model = SCM(self._name, list(self.var_names), self.parents, cpds,
                  self.cov_variables, self.treatment_variable,
                  self.response_variable)
      return model.generate(n_samples).rsp.mean()

    treated = mean_response(1)
    return treated - mean_response(0)
"""))
m('r-g-cat', SS, (S, """  samples = []
  for i, d in enumerate(distribution_indices):
    parent_sample = [p[i] for p in parents]
    samples.append(distributions[int(d)](1, parent_sample)[0])

  return np.array(samples)
""", """  rows = zip(*parents) if parents else [()] * len(distribution_indices)
  return np.array([
      distributions[int(d)](1, list(row))[0]
      for d, row in zip(distribution_indices, rows)
  ])
"""))
m('r-g-catpop', SS, (S, "  distribution_indices = parents[conditioning_on_idx]\n  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]\n", "  parents = list(parents)\n  distribution_indices = parents.pop(conditioning_on_idx)\n"))
m('r-g-noise', SS, (S, "def normal_cpd(", """def _gaussian(mean, cov, n, scalar):
  if scalar:
    return np.random.normal(mean, np.sqrt(cov), size=n)
  return np.random.multivariate_normal(mean, cov, size=n)


def normal_cpd("""), (S, """  if total_mean.ndim == 1:  # Y is univariate
    return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
  else:
    return total_mean + np.random.multivariate_normal(mean, cov, size=n_units)
""", "  return total_mean + _gaussian(mean, cov, n_units, total_mean.ndim == 1)\n"))
m('r-g-sumgen', SS, (S, """  total_mean = parents[0].dot(betas[0])
  for i in range(1, len(parents)):
    total_mean += parents[i].dot(betas[i])
""", """  total_mean = sum(p.dot(b) for p, b in zip(parents, betas))
"""))
m('r-g-logit', SS, (S, """  params = f(parents)
  means = 1 / (1 + np.exp(-params))
  return np.random.binomial(1, means)
""", """  return np.random.binomial(1, _sigmoid(f(parents)))


_sigmoid = lambda v: 1 / (1 + np.exp(-v))
"""))

# ---- parameters
m('r-g-ridges', PP, (P, """    self.treat_response = linear_model.Ridge(alpha=1.0)
    self.cont_response = linear_model.Ridge(alpha=1.0)
    self._model = (self.cont_response, self.treat_response)
""", """    self._model = tuple(linear_model.Ridge(alpha=1.0) for _ in range(2))
    self.cont_response, self.treat_response = self._model
"""))
m('r-g-groups', PP, (P, """    treat_data = []
    cont_data = []
    treat_labels = []
    cont_labels = []

    for i, x in enumerate(d.cov):
      if d.exp[i] == 1:
        treat_data.append(x)
        treat_labels.append(d.rsp[i])
      else:
        cont_data.append(x)
        cont_labels.append(d.rsp[i])
""", """    is_treated = np.asarray(d.exp) == 1
    treat_data = [x for x, t in zip(d.cov, is_treated) if t]
    treat_labels = [y for y, t in zip(d.rsp, is_treated) if t]
    cont_data = [x for x, t in zip(d.cov, is_treated) if not t]
    cont_labels = [y for y, t in zip(d.rsp, is_treated) if not t]
"""))
m('r-g-groupdict', PP, (P, """    treat_data = []
    cont_data = []
    treat_labels = []
    cont_labels = []

    for i, x in enumerate(d.cov):
      if d.exp[i] == 1:
        treat_data.append(x)
        treat_labels.append(d.rsp[i])
      else:
        cont_data.append(x)
        cont_labels.append(d.rsp[i])
""", """    groups = {True: ([], []), False: ([], [])}
    for x, t, y in zip(d.cov, d.exp, d.rsp):
      xs, ys = groups[bool(t == 1)]
      xs.append(x)
      ys.append(y)
    treat_data, treat_labels = groups[True]
    cont_data, cont_labels = groups[False]
"""))
m('r-g-nan', PP, (P, """      nan_array = np.empty((d.n_units, self._nus_dim))
      nan_array[:] = np.nan
      return nan_array

    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    n_units = d.n_units
""", """      return np.full((d.n_units, self._nus_dim), np.nan)

    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    n_units = d.n_units
"""))
m('r-g-eta', PP, (P, """    eta = np.array([
        self.response.predict(np.c_[np.zeros(n_units), d.cov]),
        self.response.predict(np.c_[np.ones(n_units), d.cov]),
        self.response.predict(np.c_[d.exp, d.cov]), predicted_probs
    ]).transpose()

    return eta
""", """    columns = [
        self.response.predict(np.column_stack((t, d.cov)))
        for t in (np.zeros(n_units), np.ones(n_units), d.exp)
    ]
    columns.append(predicted_probs)
    return np.stack(columns, axis=1)
"""))
m('r-g-enough', PP, (P, """    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
""", """    n_treated = np.sum(d.exp)
    if min(n_treated, n_units - n_treated) < self._min_units:
"""))
m('r-g-phi', PP, (P, """    cond_difference = eta[:, 1] - eta[:, 0]
    ipw = (d.rsp - eta[:, 2]) * (
        d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
    return cond_difference + ipw
""", """    mu0, mu1, mu, prob = eta.T
    weight = (d.exp - prob) / (prob * (1 - prob))
    return mu1 - mu0 + weight * (d.rsp - mu)
"""))
m('r-g-score', PP, (P, """    eta = self.transform(d)
    return self._phi(eta, d)

  def set_to_truth(self, data_gen: data.DataGenerator):""", """    return self._phi(eta=self.transform(d), d=d)

  def set_to_truth(self, data_gen: data.DataGenerator):"""))
m('r-g-kwargs', PP, (P, """    super().__init__(
        n_features,
        response=linear_model.Ridge(alpha=1.0, fit_intercept=False),
        propensity=linear_model.LogisticRegression(warm_start=True),
        min_units=min_units,
        min_overlap=min_overlap,
    )
""", """    models = {
        'response': linear_model.Ridge(alpha=1.0, fit_intercept=False),
        'propensity': linear_model.LogisticRegression(warm_start=True),
    }
    limits = dict(min_units=min_units, min_overlap=min_overlap)
    super().__init__(n_features, **models, **limits)
"""))
m('r-g-reset', PP, (P, """    self.response = sklearn.clone(self.response)
    self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit = False
    self.recent_data = None

  def fit(""", """    for name in ('response', 'propensity'):
      setattr(self, name, sklearn.clone(getattr(self, name)))
    self.recent_data, self._has_been_fit = None, False

  def fit("""))
m('r-g-countdict', DD, (D, COUNT, """    x_keys = [xi.tobytes() for xi in x]
    z_keys = [zi.tobytes() for zi in z]
    self.x_values = dict(zip(x_keys, x))
    self.z_values = {key: zi for key, zi in zip(z_keys, z)}
    for x_key, z_key in zip(x_keys, z_keys):
      self.table[x_key][z_key] += 1
"""))
m('r-g-counter2', DD, (D, COUNT, """    self.x_values = {xi.tobytes(): xi for xi in x}
    self.z_values = {zi.tobytes(): zi for zi in z}
    pairs = collections.Counter(
        (xi.tobytes(), zi.tobytes()) for xi, zi in zip(x, z))
    for (x_key, z_key), count in pairs.items():
      self.table[x_key][z_key] = count
"""))
