"""Refactorings of arms.py, as another maintainer might write them."""
_src = open('/verif/dev/arms.py').read()
exec(_src[:_src.index('# ---- refactorings')])
FIN = '''    elif self._ci_algorithm is CIAlgorithm.FINITE_SAMPLE:
      if self._tau_bound <= 0 or self._burn_in <= 1 or self._sub_gscale <= 0:
        raise ValueError("tau_bound, burn_in, and subgScale must be positive")
      eta_cs_width = self._eta.calculate_cs_width(
          delta / 2,
          sub_g=self._eta_sub_gscale,
          rho=self._rho,
      )
      n = len(self._split_data[1])
      if self._burn_in > n:
        self._ci = (0, np.inf)
        return self._ci
      # See the paper, section 3.5 for a justification of this formula
'''
CHIH = """    if self._ci_algorithm is CIAlgorithm.CHI2:
      n = self._split_data[1].n_units
"""
CLTH = """
    elif self._ci_algorithm is CIAlgorithm.CLT:
      clt_delta = 6 * delta / (np.pi * self._num_pulled)**2
      n = self._split_data[1].n_units
      scores = self._eta.calculate_score(self._split_data[1])
      var_of_var = np.var((scores - self._ate)**2)
"""
ELSE = """    else:
      raise ValueError(f"{self._ci_algorithm} is an unknown CI algorithm name.")

    return self._ci

  def get_num_units"""
DISPATCH = CHIH + CHI + CLTH + CLT + "\n" + FIN + WIDTH + ELSE
SPLIT = """    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
    else:
""" + STABLE
BSPLITALL = """    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(self.n_splits)
    else:
""" + BSPLIT
UNITS = '''  def get_num_units(self) -> int:
    """Returns the number of units seen by this arm."""
    if self._split_data'''
RESET = '''  def reset(self) -> None:
    """Resets the arm to its default state."""'''
METHODS = """
  def _chi2_ci(self, delta):
    n = self._split_data[1].n_units
    ss = self.var_est * (n - 1)
    return (ss / scipy.stats.chi2.ppf(1 - delta / 2, df=n - 1),
            ss / scipy.stats.chi2.ppf(delta / 2, df=n - 1))

  def _clt_ci(self, delta):
    level = 6 * delta / (np.pi * self._num_pulled)**2
    held_out = self._split_data[1]
    scores = self._eta.calculate_score(held_out)
    se = np.sqrt(np.var((scores - self._ate)**2) / held_out.n_units)
    return (max(self.var_est + scipy.stats.norm.ppf(level / 2) * se, 0),
            self.var_est + scipy.stats.norm.ppf(1 - level / 2) * se)

  def _finite_sample_ci(self, delta):
    if self._tau_bound <= 0 or self._burn_in <= 1 or self._sub_gscale <= 0:
      raise ValueError("tau_bound, burn_in, and subgScale must be positive")
    eta_width = self._eta.calculate_cs_width(
        delta / 2, sub_g=self._eta_sub_gscale, rho=self._rho)
    n = len(self._split_data[1])
    if self._burn_in > n:
      return (0, np.inf)
    g = self._sub_gscale
    lambdap = max(g, 8 * g**2)
    main = 5 / 8 * (np.sqrt(2 * g) + self._tau_bound) * np.sqrt(
        2 * np.log(lambdap * n / self._burn_in) / n + .5 +
        np.log(4 / delta)) / np.sqrt(n)
    width = main + eta_width**2
    return (max(self.var_est - width, 0), self.var_est + width)

  def get_num_units"""
m('r-methods', ALLA, (DISPATCH, """    if self._ci_algorithm is CIAlgorithm.CHI2:
      self._ci = self._chi2_ci(delta)
    elif self._ci_algorithm is CIAlgorithm.CLT:
      self._ci = self._clt_ci(delta)
    elif self._ci_algorithm is CIAlgorithm.FINITE_SAMPLE:
      self._ci = self._finite_sample_ci(delta)
    else:
      raise ValueError(f"{self._ci_algorithm} is an unknown CI algorithm name.")
    return self._ci
""" + METHODS))
m('r-dispatch', ALLA, (DISPATCH, """    methods = {
        CIAlgorithm.CHI2: self._chi2_ci,
        CIAlgorithm.CLT: self._clt_ci,
        CIAlgorithm.FINITE_SAMPLE: self._finite_sample_ci,
    }
    if self._ci_algorithm not in methods:
      raise ValueError(f"{self._ci_algorithm} is an unknown CI algorithm name.")
    self._ci = methods[self._ci_algorithm](delta)
    return self._ci
""" + METHODS))
m('r-finite-first', ALLA, (FIN + WIDTH + ELSE, """    elif self._ci_algorithm is not CIAlgorithm.FINITE_SAMPLE:
      raise ValueError(f"{self._ci_algorithm} is an unknown CI algorithm name.")
    else:
      if min(self._tau_bound, self._sub_gscale) <= 0 or self._burn_in <= 1:
        raise ValueError("tau_bound, burn_in, and subgScale must be positive")
      n = self._split_data[1].n_units
      eta_cs_width = self._eta.calculate_cs_width(
          delta / 2, sub_g=self._eta_sub_gscale, rho=self._rho)
      if n < self._burn_in:
        self._ci = (0, np.inf)
      else:
        self._ci = self._width_ci(n, delta, eta_cs_width)
    return self._ci

  def _width_ci(self, n, delta, eta_cs_width):
    lambdap = np.maximum(self._sub_gscale, 8 * self._sub_gscale**2)
    log_term = 2 * np.log(lambdap * n / self._burn_in) / n
    width = (5 / 8 * (np.sqrt(2 * self._sub_gscale) + self._tau_bound) *
             np.sqrt(log_term + .5 + np.log(4 / delta)) / np.sqrt(n) +
             eta_cs_width**2)
    return (max(self._var_est - width, 0), self._var_est + width)

  def get_num_units"""))
m('r-base-accumulate', ALLA, (SPLIT, "    self._accumulate(new_data, 2)\n"), (BSPLITALL, "    self._accumulate(new_data, self.n_splits)\n"), (RESET, '''  def _accumulate(self, new_data, n_splits):
    batch = self._data_transformer(new_data)
    if self._split_data is None:
      self._split_data = batch.k_fold(n_splits)
    elif self._stable_splits:
      for fold, extra in zip(self._split_data, batch.k_fold(n_splits)):
        fold.append(extra)
    else:
      pooled = self._split_data[0]
      for fold in self._split_data[1:]:
        pooled.append(fold)
      pooled.append(batch)
      self._split_data = pooled.k_fold(n_splits)

''' + RESET))
m('r-early-return', ALLA, (SPLIT, """    self._split_data = self._merge(self._data_transformer(new_data))
"""), (UNITS, """  def _merge(self, fresh):
    current = self._split_data
    if current is None:
      return fresh.k_fold(2)
    if not self._stable_splits:
      everything = current[0]
      everything.append(current[1])
      everything.append(fresh)
      return everything.k_fold(2)
    first, second = fresh.k_fold(2)
    current[0].append(first)
    current[1].append(second)
    return current

""" + UNITS))
m('r-validate-helper', ALLA, (CHECK, """    _check_delta(delta)
    self._num_pulled += 1
"""), ("class CIAlgorithm(enum.Enum):", """def _check_delta(delta):
  if delta <= 0 or delta >= 1:
    raise ValueError(f"delta={delta}, but expected to be in (0,1)")


class CIAlgorithm(enum.Enum):"""))
m('r-set-estimates', ALLA, (NOT_ENOUGH, """    if not self._eta.has_enough_samples():
      return self._set_estimates((0, np.inf), np.nan, np.inf)
"""), ('''  def get_num_units(self) -> int:
    """Returns the number of units seen by this arm."""
    return 0
''', '''  def _set_estimates(self, ci, ate, var_est):
    self._ci, self._ate, self._var_est = ci, ate, var_est
    return ci

  def get_num_units(self) -> int:
    """Returns the number of units seen by this arm."""
    return 0
'''))
U2 = """    if self._split_data is None:
      return 0
    return sum(len(data) for data in self._split_data)"""
m('r-units-loop', ALLA, ("    return sum(len(data) for data in self._split_data)", """    total = 0
    for fold in self._split_data:
      total += fold.n_units
    return total"""))
m('r-units-or', ALLA, (U2, "    return sum(len(fold) for fold in self._split_data or [])"))
m('r-units-ternary', ALLA, (U2, "    return 0 if self._split_data is None else sum(\n        map(len, self._split_data))"))
m('r-train-test', ALLA, ("    # Use the first split to train eta\n    self._eta.fit(self._split_data[0])\n\n    # We need", "    train, test = self._split_data\n    self._eta.fit(train)\n\n    # We need"), (SCORE, """    phi = self._eta.calculate_score(test)
    self._ate = phi.mean()
    self._var_est = phi.var()
"""))
m('r-boot-helper2', ALLA, (BOOT, """    self._ci = self._bootstrap_ci(n_bootstraps, delta)
"""), ('''    self.n_bootstraps = n_bootstraps
    self.n_splits = 2
    self._stable_splits = stable_splits
''', '''    self.n_bootstraps = n_bootstraps
    self.n_splits = 2
    self._stable_splits = stable_splits

  def _bootstrap_ci(self, n_bootstraps, delta):
    variances = []
    for _ in range(n_bootstraps):
      inside, outside = self._split_data[0].subsample(1.0 / n_bootstraps)
      self._eta.fit(inside)
      scores = self._eta.calculate_score(outside)
      variances.append(np.var(scores))
    variances.sort()
    lower = int(np.floor(delta / 2 * n_bootstraps))
    upper = int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1
    return variances[lower], variances[upper]
'''))
m('r-boot-scores', ALLA, ("""    self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))

    self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
""", """    scores = self._eta.calculate_score(self._split_data[1])
    self._ate, self._var_est = np.mean(scores), np.var(scores)
"""))
m('r-boot-nb2', ALLA, ("""    if self.n_bootstraps == 0:
      n_bootstraps = int(np.ceil(4 / delta))
    else:
      n_bootstraps = self.n_bootstraps
""", """    n_bootstraps = self.n_bootstraps
    if not n_bootstraps:
      n_bootstraps = int(np.ceil(4 / delta))
"""))
m('r-boot-ceil', ALLA, ("int(np.ceil(4 / delta))", "math.ceil(4 / delta)"), ("import enum\n", "import enum\nimport math\n"))
m('r-initial', ALLA, ('''    self._ci = (-np.inf, np.inf)
    self._eta = eta
''', '''    self._ci = self._trivial_ci()
    self._eta = eta
'''), ('''    self._ci = (-np.inf, np.inf)
    self._eta.reset()
''', '''    self._ci = self._trivial_ci()
    self._eta.reset()
'''), (RESET, '''  @staticmethod
  def _trivial_ci():
    return (-np.inf, np.inf)

''' + RESET))
m('r-kwinit', ALLA, ("    super().__init__(name, eta, data_transformer, cost)\n", "    super().__init__(\n        name=name, eta=eta, data_transformer=data_transformer, cost=cost)\n"))
m('r-chi-order', ALLA, (CHI, """      quantiles = scipy.stats.chi2.ppf([1 - delta / 2, delta / 2], df=n - 1)
      ci_low, ci_high = self.var_est * (n - 1) / quantiles
      self._ci = (ci_low, ci_high)
"""))
m('r-chi-interval', ALLA, (CHI, """      dof = n - 1
      upper, lower = (scipy.stats.chi2.ppf(q, df=dof)
                      for q in (1 - delta / 2, delta / 2))
      self._ci = (dof * self.var_est / upper, dof * self.var_est / lower)
"""))
m('r-clt-z', ALLA, (CLT, """      z_low, z_high = scipy.stats.norm.ppf([clt_delta / 2, 1 - clt_delta / 2])
      scale = np.sqrt(var_of_var / n)
      self._ci = (max(self.var_est + z_low * scale, 0), self.var_est + z_high * scale)
"""))
m('r-clt-isf', ALLA, (CLT, """      margin = scipy.stats.norm.isf(clt_delta / 2) * np.sqrt(var_of_var / n)
      self._ci = (max(self.var_est - margin, 0), self.var_est + margin)
"""))
m('r-nan-check-helper', ALLA, ("""    if np.isnan(self._var_est):
      raise ValueError("var_est is a nan!")
""", """    self._check_estimate()
"""), (UNITS, """  def _check_estimate(self):
    if np.isnan(self._var_est):
      raise ValueError("var_est is a nan!")

""" + UNITS))
m('r-num-pulled-late', ALLA, ('''    self._num_pulled += 1

    self.delta = delta

    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
''', '''    self.delta = delta
    self._num_pulled = self._num_pulled + 1

    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
'''))
