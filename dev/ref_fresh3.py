"""Refactorings with rarer constructs: arms, front door, others."""
A, B, D, P, Q, S, N, E, L = ('arms.py', 'bandits.py', 'data.py', 'parameters.py',
                             'paper_utils.py', 'scm.py', 'nonlinear_utils.py',
                             'example_scm.py', 'plotting_utils.py')
M = []


def _real(file, old, new):
  """The edits that `old` stands for where comment lines are left out."""
  src = open('/repo/causal_effect_bandits/' + file).read()
  if old in src:
    return [(file, old, new)]
  lines = src.splitlines(keepends=True)
  kept = [(i, l) for i, l in enumerate(lines) if not l.lstrip().startswith('#')]
  blank = [(i, l) for i, l in kept]
  want = old.splitlines(keepends=True)
  out = []
  for at in range(len(blank) - len(want) + 1):
    if [l for _, l in blank[at:at + len(want)]] == want:
      lo, hi = blank[at][0], blank[at + len(want) - 1][0]
      real = ''.join(lines[lo:hi + 1])
      if (file, real, new) not in out:
        out.append((file, real, new))
  assert out, (file, old)
  return out


def m(name, ids, *edits):
  out = []
  for e in edits:
    if len(e) > 3 and e[3] == 1:
      out.append(e)
    else:
      found = _real(*e[:3])
      out += [f + (9,) for f in found] if len(e) > 3 else found[:1]
  M.append((name, out, ids))


DD = 'D01 D02 D03 D04 D05 D06 D07 D08 V02 O01 R01'
SS = 'S01 S02 S03 S04 S05 O01 R01 D06'
BB = 'B01 B02 B03 B04 B05 B06 B07 B08 B09 B10 B11 O01 R01'
PP = 'P01 P02 P03 P04 P05 P06 P07 P08 P10 P11 P12 O01 R01 D06'

AA = 'A01 A02 A03 A04 A05 A06 A08 A09 A10 A11 R01 O01 D06'
NN = 'U01 U02 U03 U04 U05 U06 R01'

BOOT = """    b_samples = []
    for _ in range(n_bootstraps):
      (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)

      self._eta.fit(in_data)
      b_samples.append(np.var(self._eta.calculate_score(out_data)))

    b_samples = np.array(b_samples)
    b_samples.sort()
    ci_low = b_samples[int(np.floor(delta / 2 * n_bootstraps))]
    ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
    self._ci = (ci_low, ci_high)
"""
m('r-h-bootgen', AA, (A, BOOT, """    b_samples = sorted(self._bootstrap(n_bootstraps))
    first = int(np.floor(n_bootstraps * delta / 2))
    last = int(np.ceil(n_bootstraps * (1 - delta / 2))) - 1
    self._ci = (b_samples[first], b_samples[last])
"""), (A, """  def get_num_units(self) -> int:
    \"\"\"Returns the number of units seen by this arm.\"\"\"
    if self._split_data is None:
      return 0
    return sum(len(data) for data in self._split_data)


class""" if False else """class BootstrapArm(VarianceEstimatorArm):
""", """class BootstrapArm(VarianceEstimatorArm):

  def _bootstrap(self, n):
    for _ in range(n):
      inside, outside = self._split_data[0].subsample(1.0 / n)
      self._eta.fit(inside)
      yield np.var(self._eta.calculate_score(outside))

"""))
m('r-h-bootarr', AA, (A, BOOT, """    b_samples = np.empty(n_bootstraps)
    for b in range(n_bootstraps):
      in_data, out_data = self._split_data[0].subsample(1.0 / n_bootstraps)
      self._eta.fit(in_data)
      b_samples[b] = self._eta.calculate_score(out_data).var()
    b_samples = np.sort(b_samples)
    low = int(np.floor(delta / 2 * n_bootstraps))
    high = int(np.ceil((1 - delta / 2) * n_bootstraps))
    self._ci = (b_samples[low], b_samples[high - 1])
"""))
m('r-h-bootn', AA, (A, """    if self.n_bootstraps == 0:
      n_bootstraps = int(np.ceil(4 / delta))
    else:
      n_bootstraps = self.n_bootstraps
""", """    n_bootstraps = self.n_bootstraps or int(np.ceil(4 / delta))
"""))
m('r-h-bootvar', AA, (A, """    self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))

    self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
""", """    held_out = self._eta.calculate_score(self._split_data[1])
    self._ate, self._var_est = np.mean(held_out), np.var(held_out)
"""))
SPLIT = """    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
    else:
      if self._stable_splits:
        new_split = self._data_transformer(new_data).k_fold(2)
        for i in range(2):
          self._split_data[i].append(new_split[i])
      else:
        all_data = self._split_data[0]
        all_data.append(self._split_data[1])
        all_data.append(self._data_transformer(new_data))
        self._split_data = all_data.k_fold(2)
"""
m('r-h-absorb', AA, (A, SPLIT, """    self._split_data = self._absorb(self._data_transformer(new_data))
"""), (A, "class BootstrapArm(", """def _merge(parts):
  first, *rest = parts
  for part in rest:
    first.append(part)
  return first


class BootstrapArm("""), (A, """  def get_num_units(self) -> int:
    \"\"\"Returns the number of units seen by this arm.\"\"\"
    if self._split_data is None:
      return 0
    return sum(len(data) for data in self._split_data)

  def reset(self) -> None:
    super().reset()
""", """  def _absorb(self, batch):
    if self._split_data is None:
      return batch.k_fold(2)
    if not self._stable_splits:
      return _merge([*self._split_data, batch]).k_fold(2)
    for old, new in zip(self._split_data, batch.k_fold(2)):
      old.append(new)
    return self._split_data

  def get_num_units(self) -> int:
    \"\"\"Returns the number of units seen by this arm.\"\"\"
    return sum(map(len, self._split_data or []))

  def reset(self) -> None:
    super().reset()
"""))
m('r-h-dispatch', AA, (A, """    if self._ci_algorithm is CIAlgorithm.CHI2:
      n = self._split_data[1].n_units
      ci_low = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
          1 - delta / 2, df=n - 1)
      ci_high = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
          delta / 2, df=n - 1)
      self._ci = (ci_low, ci_high)
""", """    if self._ci_algorithm is CIAlgorithm.CHI2:
      df = self._split_data[1].n_units - 1
      tails = np.array([1 - delta / 2, delta / 2])
      low, high = df * self._var_est / scipy.stats.chi2.ppf(tails, df)
      self._ci = (low, high)
"""))
m('r-h-methods', AA, (A, """    if self._ci_algorithm is CIAlgorithm.CHI2:
      n = self._split_data[1].n_units
      ci_low = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
          1 - delta / 2, df=n - 1)
      ci_high = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
          delta / 2, df=n - 1)
      self._ci = (ci_low, ci_high)
""", """    if self._ci_algorithm is CIAlgorithm.CHI2:
      self._ci = self._chi2_interval(delta)
"""), (A, """  def get_num_units(self) -> int:
    \"\"\"Returns the number of units seen by this arm.\"\"\"
    if self._split_data is None:
      return 0
    return sum(len(data) for data in self._split_data)

  def reset(self) -> None:
    super().reset()
""", """  def _chi2_interval(self, delta):
    df = len(self._split_data[1]) - 1
    quantile = lambda q: scipy.stats.chi2.ppf(q, df=df)
    return tuple(
        df * self._var_est / quantile(q) for q in (1 - delta / 2, delta / 2))

  def get_num_units(self) -> int:
    \"\"\"Returns the number of units seen by this arm.\"\"\"
    if self._split_data is None:
      return 0
    return sum(len(data) for data in self._split_data)

  def reset(self) -> None:
    super().reset()
"""))
m('r-h-clt', AA, (A, """      ci_low = max(
          self.var_est +
          scipy.stats.norm.ppf(clt_delta / 2) * np.sqrt(var_of_var / n), 0)
      ci_high = self.var_est + scipy.stats.norm.ppf(1 - clt_delta /
                                                    2) * np.sqrt(var_of_var / n)
      self._ci = (ci_low, ci_high)
""", """      z = scipy.stats.norm.ppf(1 - clt_delta / 2)
      std_err = np.sqrt(var_of_var / n)
      self._ci = (max(self._var_est - z * std_err, 0),
                  self._var_est + z * std_err)
"""))
m('r-h-cltscores', AA, (A, """      scores = self._eta.calculate_score(self._split_data[1])
      var_of_var = np.var((scores - self._ate)**2)
""", """      var_of_var = np.square(scores - self._ate).var()
"""))
m('r-h-initcall', AA, (A, """    self._name = name
    self._ci = (-np.inf, np.inf)
    self._eta = eta
    self._data_transformer = data_transformer
    self._ate = None
    self._var_est = None
    self._num_pulled = 0
    self._split_data = None
    self.cost = cost
""", """    self._name, self._eta = name, eta
    self._data_transformer = data_transformer
    self.cost = cost
    self._forget()

  def _forget(self):
    self._ci = (-np.inf, np.inf)
    self._ate = self._var_est = self._split_data = None
    self._num_pulled = 0
"""), (A, """    self._ci = (-np.inf, np.inf)
    self._eta.reset()
    self._ate = None
    self._var_est = None
    self._num_pulled = 0
    self._split_data = None
""", """    self._eta.reset()
    self._forget()
"""))
m('r-h-delta', AA, (A, """    if not 0 < delta < 1:
      raise ValueError(f"Given delta={delta}, but 0<delta<1 is required.")
""", """    if delta <= 0 or delta >= 1 or np.isnan(delta):
      raise ValueError("Given delta=%s, but 0<delta<1 is required." % delta)
"""))
m('r-h-width', AA, (A, """      if self._tau_bound <= 0 or self._burn_in <= 1 or self._sub_gscale <= 0:
        raise ValueError(""", """      if not (self._tau_bound > 0 and self._burn_in > 1 and
              self._sub_gscale > 0):
        raise ValueError("""))

# ---- front door
FIT = """    self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
"""
m('r-h-fdfit', PP, (P, FIT, "    self.y_response.fit(np.column_stack([d.exp, d.cov]), d.rsp)\n"))
m('r-h-fdclip', PP, (P, """    p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
    p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
    p_z_x = np.clip(p_z_x, self._min_overlap, 1 - self._min_overlap)
""", """    p_z_x1, p_z_x0, p_z_x = (
        np.clip(p, self._min_overlap, 1 - self._min_overlap)
        for p in (p_z_x1, p_z_x0, p_z_x))
"""))
m('r-h-fdhelper', PP, (P, """    n_units = len(d)
    mu_y_zx = self.y_response.predict(np.array(np.c_[d.exp, d.cov]))
    p_z_x1 = self.cov_given_exp.predict(np.ones(n_units, dtype=int), d.cov)
    p_z_x0 = self.cov_given_exp.predict(np.zeros(n_units, dtype=int), d.cov)
    p_z_x = self.cov_given_exp.predict(d.exp, d.cov)

    p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
    p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
    p_z_x = np.clip(p_z_x, self._min_overlap, 1 - self._min_overlap)
""", """    n_units = len(d)
    mu_y_zx = self.y_response.predict(np.array(np.c_[d.exp, d.cov]))

    def density(x):
      return np.clip(
          self.cov_given_exp.predict(x, d.cov), self._min_overlap,
          1 - self._min_overlap)

    p_z_x0 = density(np.zeros(n_units, dtype=int))
    p_z_x1 = density(np.ones(n_units, dtype=int))
    p_z_x = density(d.exp)
"""))
LOOP = """      f_1 += mu_yzx_i * (
          self.cov_given_exp.predict(np.array([1]), [z]) -
          self.cov_given_exp.predict(np.array([0]), [z]))

      f_3 += (
          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
          + self.y_response.predict([np.insert(z, 0, 0)]) *
          (1 - self.exp_prob) * p_z_x0)
"""
m('r-h-fdloop', PP, (P, LOOP, """      p1, p0 = (self.cov_given_exp.predict(np.array([v]), [z]) for v in (1, 0))
      f_1 = f_1 + (p1 - p0) * mu_yzx_i
      for v, weight, p in ((1, self.exp_prob, p_z_x1),
                           (0, 1 - self.exp_prob, p_z_x0)):
        f_3 += self.y_response.predict([np.insert(z, 0, v)]) * weight * p
"""))
m('r-h-fdstack', PP, (P, """    eta = np.array([
        mu_y_zx,
        p_z_x1,
        p_z_x0,
        p_z_x,
        w,
        f_1,
        f_2,
        f_3,
    ]).transpose()

    return eta
""", """    return np.column_stack([mu_y_zx, p_z_x1, p_z_x0, p_z_x, w, f_1, f_2, f_3])
"""))
m('r-h-fdphi', PP, (P, """    phi = ((d.rsp - eta[:, 0]) *
           (eta[:, 1] / eta[:, 3] - eta[:, 2] / eta[:, 3]) + eta[:, 5] +
           eta[:, 4] * (eta[:, 6] - eta[:, 7]))

    return phi
""", """    mu, p1, p0, p, w, f_1, f_2, f_3 = np.transpose(eta)
    residual = d.rsp - mu
    phi = residual * (p1 - p0) / p
    phi += f_1
    phi += w * (f_2 - f_3)
    return phi
"""))
m('r-h-fdreset', PP, (P, """    self.__init__(
        self._cov_dim,
        self._min_units,
        self._min_overlap,
        self._min_ratio_to_uniform,
    )
""", """    options = {
        name: getattr(self, '_' + name)
        for name in ('min_units', 'min_overlap', 'min_ratio_to_uniform')
    }
    self.__init__(self._cov_dim, **options)
"""))
m('r-h-boundary', PP, (P, """    def uniform_boundary(n, delta):
      if n <= delta**2 / 4 / rho:
        return np.inf
      else:
        return np.sqrt(1 / n * (.25 + rho / n) * np.log(
            (n / 4 + rho) / (delta**2 * rho)))

    t_radius = uniform_boundary(len(x), delta / 3)
""", """    n_units, level = len(x), delta / 3
    t_radius = np.inf
    if n_units > level * level / (4 * rho):
      spread = (n_units / 4 + rho) / n_units**2
      t_radius = np.sqrt(
          spread * (np.log(n_units / 4 + rho) - np.log(level**2 * rho)))
"""))
m('r-h-width2', PP, (P, """    return mu_radius + eta_radius * (1 / self._min_overlap - 2)
""", """    odds = 1 / self._min_overlap - 1
    return mu_radius + eta_radius * (odds - 1)
"""))
m('r-h-gram', PP, (P, """    x = self.recent_data.cov
    d = self._cov_dim
    v = x.transpose().dot(x)

""", """    d, v = self._gram(self.recent_data.cov)
"""), (P, """  def set_to_truth(self, data_gen: data.DataGenerator):
    \"\"\"Sets eta to the true value given a DGenerator object.
""", """  @staticmethod
  def _gram(x):
    return x.shape[1], x.T @ x

  def set_to_truth(self, data_gen: data.DataGenerator):
    \"\"\"Sets eta to the true value given a DGenerator object.
"""))
m('r-h-warn', PP, (P, """      message = (f"{sum(d.exp)} treatment units of {n_units} total units is not"
                 " enough units in control or treatment to fit eta.")
      logging.warning(message)
      return
""", """      logging.warning(
          "%s treatment units of %s total units is not enough units in control "
          "or treatment to fit eta.", sum(d.exp), n_units)
      return
"""))
m('r-h-fitelse', PP, (P, """      logging.warning(message)
      return

    self.response.fit(np.c_[d.exp, d.cov], d.rsp)
    self.propensity.fit(d.cov, d.exp)

    self._has_been_fit = True
""", """      logging.warning(message)
    else:
      for model, inputs, target in (
          (self.response, np.c_[d.exp, d.cov], d.rsp),
          (self.propensity, d.cov, d.exp)):
        model.fit(inputs, target)
      self._has_been_fit = True
"""))

# ---- nonlinear, plotting
m('r-h-outer', NN, (N, """  fns = []
  for _ in range(out_dim):
    fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
    y = fns[-1].sample_y(x, 1, random_state=rng)
    fns[-1].fit(x, y)
""", """
  def sample():
    gp = gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha)
    return gp.fit(x, gp.sample_y(x, 1, random_state=rng))

  fns = [sample() for _ in range(out_dim)]
"""))
m('r-h-outf', NN, (N, """    output = []
    for d in range(out_dim):
      output.append(fns[d].predict(x.reshape(x.shape[0], -1)))
    return np.column_stack(output)
""", """    flat = x.reshape(len(x), -1)
    return np.column_stack([gp.predict(flat) for gp in fns])
"""))
m('r-h-grid', NN, (N, "  x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x\n", "  unit_cube = np.array(list(itertools.product(x1d, repeat=dim)))\n  x = min_x + (max_x - min_x) * unit_cube\n"))
m('r-h-plot', 'V01 V02', (L, """    num_samples = bdata.cum_samples[initial_points_to_ignore:]
    mid = bdata.var_est_by_arm[arm][initial_points_to_ignore:]
    lower = bdata.lcb_by_arm[arm][initial_points_to_ignore:]
    upper = bdata.ucb_by_arm[arm][initial_points_to_ignore:]
""", """    shown = slice(initial_points_to_ignore, None)
    num_samples = bdata.cum_samples[shown]
    mid, lower, upper = (history[arm][shown] for history in (
        bdata.var_est_by_arm, bdata.lcb_by_arm, bdata.ucb_by_arm))
"""))
m('r-h-plot2', 'V01 V02', (L, """    ax.plot(num_samples, lower, color=color, alpha=0.1)
    ax.plot(num_samples, upper, color=color, alpha=0.1)
""", """    for bound in (lower, upper):
      ax.plot(num_samples, bound, color=color, alpha=0.1)
"""))
