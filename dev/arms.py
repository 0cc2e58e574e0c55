F = 'arms.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(F, a, b) for a, b in edits], ids))


ALLA = 'A01 A02 A03 A04 A05 A06 A08 A09 A10 A11'

STABLE = '''      if self._stable_splits:
        new_split = self._data_transformer(new_data).k_fold(2)
        for i in range(2):
          self._split_data[i].append(new_split[i])
      else:
        all_data = self._split_data[0]
        all_data.append(self._split_data[1])
        all_data.append(self._data_transformer(new_data))
        self._split_data = all_data.k_fold(2)
'''
SCORE = '''    scores = self._eta.calculate_score(self._split_data[1])
    self._ate = np.mean(scores)

    # Use the second or third split to calculate the variance
    self._var_est = np.mean(
        (self._eta.calculate_score(self._split_data[1]) - self._ate)**2)
'''
CHI = '''      ci_low = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
          1 - delta / 2, df=n - 1)
      ci_high = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
          delta / 2, df=n - 1)
      self._ci = (ci_low, ci_high)
'''
CLT = '''      ci_low = max(
          self.var_est +
          scipy.stats.norm.ppf(clt_delta / 2) * np.sqrt(var_of_var / n), 0)
      ci_high = self.var_est + scipy.stats.norm.ppf(1 - clt_delta /
                                                    2) * np.sqrt(var_of_var / n)
      self._ci = (ci_low, ci_high)
'''
NOT_ENOUGH = '''    if not self._eta.has_enough_samples():
      self._ci = (0, np.inf)
      self._ate = np.nan
      self._var_est = np.inf
      return self._ci
'''
BSPLIT = '''      if self._stable_splits:
        new_split = self._data_transformer(new_data).k_fold(self.n_splits)
        for i in range(self.n_splits):
          self._split_data[i].append(new_split[i])
      else:
        all_data = self._split_data[0]
        for i in range(1, self.n_splits):
          all_data.append(self._split_data[i])
        all_data.append(self._data_transformer(new_data))
        self._split_data = all_data.k_fold(self.n_splits)
'''
BOOT = '''    b_samples = []
    for _ in range(n_bootstraps):
      # Compute the data with the bth fold missing
      (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)

      # Calculate tau on this fold
      self._eta.fit(in_data)
      b_samples.append(np.var(self._eta.calculate_score(out_data)))

    # Next, we need to calculate the percentiles of the bootstrap samples
    b_samples = np.array(b_samples)
    b_samples.sort()
    ci_low = b_samples[int(np.floor(delta / 2 * n_bootstraps))]
    ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
    self._ci = (ci_low, ci_high)
'''
WIDTH = '''      lambdap = max(self._sub_gscale, 8 * self._sub_gscale**2)
      width = 5 / 8 * (np.sqrt(2 * self._sub_gscale) + self._tau_bound)
      width *= np.sqrt(2 * np.log(lambdap * n / self._burn_in) / n + .5 +
                       np.log(4 / delta)) / np.sqrt(n)
      width += eta_cs_width**2
      self._ci = (max(self.var_est - width, 0), self.var_est + width)
'''
CHECK = '''    if not 0 < delta < 1:
      raise ValueError(f"delta={delta}, but expected to be in (0,1)")

    self._num_pulled += 1
'''

# ---- refactorings
m('r-split-helper', ALLA, ('''    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
    else:
''' + STABLE, '''    self._add(self._data_transformer(new_data))
'''), ('''  def get_num_units(self) -> int:
    """Returns the number of units seen by this arm."""
    if self._split_data is None:
      return 0
    return sum(len(data) for data in self._split_data)

  def reset''', '''  def _add(self, transformed):
    if self._split_data is None:
      self._split_data = transformed.k_fold(2)
      return
    train, held_out = self._split_data
    if self._stable_splits:
      for old, new in zip(self._split_data, transformed.k_fold(2)):
        old.append(new)
    else:
      train.append(held_out)
      train.append(transformed)
      self._split_data = train.k_fold(2)

  def get_num_units(self) -> int:
    """Returns the number of units seen by this arm."""
    if self._split_data is None:
      return 0
    total = 0
    for d in self._split_data:
      total += len(d)
    return total

  def reset'''))
m('r-two-attributes', ALLA, ('''    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
    else:
''' + STABLE, '''    fresh = self._data_transformer(new_data)
    if self._train is None:
      self._train, self._test = fresh.k_fold(2)
    elif self._stable_splits:
      a, b = fresh.k_fold(2)
      self._train.append(a)
      self._test.append(b)
    else:
      pooled = self._train
      pooled.append(self._test)
      pooled.append(fresh)
      self._train, self._test = pooled.k_fold(2)
'''), ('self._eta.fit(self._split_data[0])', 'self._eta.fit(self._train)'),
  (SCORE, SCORE.replace('self._split_data[1]', 'self._test')),
  ('      n = self._split_data[1].n_units\n      ci_low', '      n = self._test.n_units\n      ci_low'),
  ('      n = self._split_data[1].n_units\n      scores = self._eta.calculate_score(self._split_data[1])',
   '      n = self._test.n_units\n      scores = self._eta.calculate_score(self._test)'),
  ('n = len(self._split_data[1])', 'n = len(self._test)'),
  ('''    if self._split_data is None:
      return 0
    return sum(len(data) for data in self._split_data)

  def reset(self) -> None:
    super().reset()
    self._split_data = None
''', '''    if self._train is None:
      return 0
    return len(self._train) + len(self._test)

  def reset(self) -> None:
    super().reset()
    self._train = None
    self._test = None
'''), ('''    self._rho = rho

''', '''    self._rho = rho
    self._train = None
    self._test = None

'''))
m('r-scores-once', ALLA, (SCORE, '''    scores = self._eta.calculate_score(self._split_data[1])
    self._ate = np.mean(scores)
    self._var_est = np.var(scores)
'''), ('      scores = self._eta.calculate_score(self._split_data[1])\n      var_of_var', '      var_of_var'))
m('r-scores-centred', ALLA, (SCORE, '''    scores = self._eta.calculate_score(self._split_data[1])
    self._ate = scores.mean()
    centred = scores - self._ate
    self._var_est = (centred * centred).mean()
'''))
m('r-scores-sum', ALLA, (SCORE, '''    scores = self._eta.calculate_score(self._split_data[1])
    self._ate = np.sum(scores) / len(scores)
    self._var_est = np.sum((scores - self._ate)**2) / len(scores)
'''))
m('r-chi-helper', ALLA, (CHI, '''      self._ci = self._chi2_interval(n, delta)
'''), ('  def get_num_units', '''  def _chi2_interval(self, n, delta):
    dist = scipy.stats.chi2
    total = (n - 1) * self._var_est
    return tuple(total / dist.ppf(q, n - 1) for q in (1 - delta / 2, delta / 2))

  def get_num_units'''))
m('r-chi-isf', ALLA, (CHI, '''      scale = self._var_est * (n - 1)
      self._ci = (scale / scipy.stats.chi2.isf(delta / 2, df=n - 1),
                  scale / scipy.stats.chi2.ppf(delta / 2, df=n - 1))
'''))
m('r-clt-half', ALLA, (CLT, '''      half = scipy.stats.norm.ppf(1 - clt_delta / 2) * np.sqrt(var_of_var) / np.sqrt(n)
      self._ci = (max(self.var_est - half, 0), self.var_est + half)
'''))
m('r-clt-std', ALLA, (CLT, '''      se = np.sqrt(var_of_var / n)
      z = -scipy.stats.norm.ppf(clt_delta / 2)
      low = self.var_est - z * se
      if low < 0:
        low = 0
      self._ci = (low, self.var_est + z * se)
'''))
m('r-clt-level', ALLA, ('clt_delta = 6 * delta / (np.pi * self._num_pulled)**2',
                        'clt_delta = delta * 6 / np.pi**2 / self.num_pulled**2'))
m('r-width', ALLA, (WIDTH, '''      scale = self._sub_gscale
      lambdap = max(scale, 8 * scale**2)
      root = np.sqrt(2 * np.log(lambdap * n / self._burn_in) / n + .5 +
                     np.log(4 / delta))
      width = eta_cs_width**2 + 5 / 8 * (np.sqrt(2 * scale) + self._tau_bound) * root / np.sqrt(n)
      low, high = self.var_est - width, self.var_est + width
      self._ci = (max(low, 0), high)
'''))
m('r-width-sqrt', ALLA, (WIDTH, '''      lambdap = max(self._sub_gscale, 8 * self._sub_gscale**2)
      width = .625 * (np.sqrt(2 * self._sub_gscale) + self._tau_bound)
      width *= np.sqrt((2 * np.log(lambdap * n / self._burn_in) / n + .5 +
                       np.log(4) - np.log(delta)) / n)
      width += eta_cs_width * eta_cs_width
      self._ci = (np.maximum(self.var_est - width, 0), self.var_est + width)
'''))
m('r-delta-or', ALLA, ('''    if not 0 < delta < 1:
      raise ValueError(f"delta={delta}''', '''    if delta <= 0 or delta >= 1:
      raise ValueError(f"delta={delta}'''))
m('r-enough-first', ALLA, (NOT_ENOUGH, '''    enough = self._eta.has_enough_samples()
    if not enough:
      self._ate, self._var_est = np.nan, np.inf
      self._ci = (0, np.inf)
      return (0, np.inf)
'''))
m('r-enough-super', ALLA, (CHECK, CHECK.replace('    self._num_pulled += 1\n', '    super().update(new_data, delta)\n')))
m('r-boot-comp', ALLA, (BOOT, '''    samples = np.sort([self._one_sample(1. / n_bootstraps) for _ in range(n_bootstraps)])
    low = int(np.floor(delta / 2 * n_bootstraps))
    high = int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1
    self._ci = (samples[low], samples[high])
'''), ('''    # Use the second split to learn the ATE and variance
''', '''    # estimates
'''), ('class BootstrapArm(VarianceEstimatorArm):', '''class BootstrapArm(VarianceEstimatorArm):

  def _one_sample(self, share):
    kept, left_out = self._split_data[0].subsample(share)
    self._eta.fit(kept)
    return np.var(self._eta.calculate_score(left_out))
'''))
m('r-boot-array', ALLA, (BOOT, '''    samples = np.zeros(n_bootstraps)
    for b in range(n_bootstraps):
      inside, outside = self._split_data[0].subsample(1.0 / n_bootstraps)
      self._eta.fit(inside)
      samples[b] = np.var(self._eta.calculate_score(outside))
    samples = np.sort(samples)
    self._ci = (samples[int(np.floor(delta / 2 * n_bootstraps))],
                samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1])
'''))
m('r-boot-int', ALLA, ('int(np.floor(delta / 2 * n_bootstraps))', 'int(delta / 2 * n_bootstraps)'),
  ('int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1', 'n_bootstraps - 1 - int(delta / 2 * n_bootstraps)'))
m('r-boot-nb', ALLA, ('''    if self.n_bootstraps == 0:
      n_bootstraps = int(np.ceil(4 / delta))
    else:
      n_bootstraps = self.n_bootstraps
''', '''    n_bootstraps = self.n_bootstraps or int(np.ceil(4 / delta))
'''))
m('r-boot-split', ALLA, (BSPLIT, '''      transformed = self._data_transformer(new_data)
      if self._stable_splits:
        for old, new in zip(self._split_data, transformed.k_fold(self.n_splits)):
          old.append(new)
      else:
        first, *others = self._split_data
        for other in others + [transformed]:
          first.append(other)
        self._split_data = first.k_fold(self.n_splits)
'''))
m('r-reset-init', ALLA, ('''  def reset(self) -> None:
    super().reset()
    self._split_data = None
''', '''  def reset(self) -> None:
    self._split_data = None
    super().reset()
'''))
m('r-reset-clear', ALLA, ('''    self._name = name
    self._ci = (-np.inf, np.inf)
    self._eta = eta
    self._data_transformer = data_transformer
    self._ate = None
    self._var_est = None
    self._num_pulled = 0
    self._split_data = None
    self.cost = cost
''', '''    self._name = name
    self._eta = eta
    self._data_transformer = data_transformer
    self.cost = cost
    self._clear()
'''), ('''    self._ci = (-np.inf, np.inf)
    self._eta.reset()
    self._ate = None
    self._var_est = None
    self._num_pulled = 0
    self._split_data = None
''', '''    self._eta.reset()
    self._clear()

  def _clear(self):
    self._ci = (-np.inf, np.inf)
    self._ate = None
    self._var_est = None
    self._num_pulled = 0
    self._split_data = None
'''))
m('r-interval-methods', ALLA, ('''    if self._ci_algorithm is CIAlgorithm.CHI2:
      n = self''', '''    if self._ci_algorithm == CIAlgorithm.CHI2:
      n = self'''), ('elif self._ci_algorithm is CIAlgorithm.CLT', 'elif self._ci_algorithm == CIAlgorithm.CLT'))
m('r-var-local', ALLA, (SCORE, '''    held_out = self._split_data[1]
    phi = self._eta.calculate_score(held_out)
    mean = np.mean(phi)
    variance = np.mean(phi**2) - mean**2
    self._ate, self._var_est = mean, variance
'''))
m('r-nan-guard', ALLA, ('    if np.isnan(self._var_est):', '    if self._var_est != self._var_est:'))

# ---- mutations
m('m-score-train', 'A01 A09', (SCORE, SCORE.replace('calculate_score(self._split_data[1])', 'calculate_score(self._split_data[0])')))
m('m-var-train', 'A01', (SCORE, SCORE.replace('(self._eta.calculate_score(self._split_data[1]) - self._ate)', '(self._eta.calculate_score(self._split_data[0]) - self._ate)')))
m('m-clt-train', 'A01', ('      scores = self._eta.calculate_score(self._split_data[1])\n      var_of_var', '      scores = self._eta.calculate_score(self._split_data[0])\n      var_of_var'))
m('m-fit-all', 'A01', ('''    # Use the first split to train eta
    self._eta.fit(self._split_data[0])

    # We need''', '''    pooled = data.ExpData(self._split_data[0].cov, self._split_data[0].exp, self._split_data[0].rsp)
    pooled.append(self._split_data[1])
    self._eta.fit(pooled)

    # We need'''))
m('m-swap-folds', 'A01', ('self._split_data[i].append(new_split[i])\n      else:\n        all_data = self._split_data[0]\n        all_data.append(self._split_data[1])',
                         'self._split_data[i].append(new_split[1 - i])\n      else:\n        all_data = self._split_data[0]\n        all_data.append(self._split_data[1])'))
m('m-cross', 'A01', ('''        new_split = self._data_transformer(new_data).k_fold(2)
''', '''        new_split = self._data_transformer(new_data).k_fold(2)
        new_split[1].append(new_split[0])
'''))
m('m-drop-new', 'A02', ('''        all_data.append(self._data_transformer(new_data))
        self._split_data = all_data.k_fold(2)''', '''        self._split_data = all_data.k_fold(2)'''))
m('m-drop-one', 'A02', ('        for i in range(2):\n', '        for i in range(1):\n'))
m('m-raw', 'A02', ('        new_split = self._data_transformer(new_data).k_fold(2)', '        new_split = new_data.k_fold(2)'))
m('m-boot-drop', 'A02', ('        for i in range(1, self.n_splits):\n          all_data.append(self._split_data[i])\n', ''))
m('m-count-first', 'A02', ('    return sum(len(data) for data in self._split_data)', '    return 2 * len(self._split_data[0])'))
m('m-kfold3', 'A02', ('self._split_data = self._data_transformer(new_data).k_fold(2)', 'self._split_data = self._data_transformer(new_data).k_fold(3)[:2]'))
m('m-chi-swap', 'A03 A04', ('          1 - delta / 2, df=n - 1)', '          delta / 2, df=n - 1)'))
m('m-chi-n', 'A03', ('self.var_est * (n - 1) / scipy.stats.chi2.ppf(\n          delta / 2, df=n - 1)', 'self.var_est * (n - 1) / scipy.stats.chi2.ppf(\n          delta / 2, df=n)'))
m('m-chi-one-sided', 'A03', ('          1 - delta / 2, df=n - 1)', '          1 - delta, df=n - 1)'))
m('m-chi-flip', 'A03 A04', ('      self._ci = (ci_low, ci_high)\n\n    elif self._ci_algorithm is CIAlgorithm.CLT', '      self._ci = (ci_high, ci_low)\n\n    elif self._ci_algorithm is CIAlgorithm.CLT'))
m('m-clt-spend', 'A03', ('clt_delta = 6 * delta / (np.pi * self._num_pulled)**2', 'clt_delta = 6 * delta / np.pi**2 / self._num_pulled'))
m('m-clt-spend-units', 'A03', ('clt_delta = 6 * delta / (np.pi * self._num_pulled)**2', 'clt_delta = 6 * delta / (np.pi * max(1, self._num_pulled - 1))**2'))
m('m-clt-clip', 'A03', (CLT, CLT.replace('ci_low = max(\n', 'ci_low = min(\n')))
m('m-clt-noclip', 'A03', (CLT, CLT.replace('ci_low = max(\n', 'ci_low = (\n').replace('/ n), 0)', '/ n))')))
m('m-clt-n', 'A03', ('      n = self._split_data[1].n_units\n      scores', '      n = self.get_num_units()\n      scores'))
m('m-clt-hi', 'A03', ('ci_high = self.var_est + scipy.stats.norm.ppf(1 - clt_delta /\n                                                    2)', 'ci_high = self.var_est + scipy.stats.norm.ppf(1 - clt_delta)'))
m('m-clt-scores', 'A03', ('var_of_var = np.var((scores - self._ate)**2)', 'var_of_var = np.var(scores - self._ate)'))
m('m-fs-delta', 'A03', ('          delta / 2,\n          sub_g', '          delta,\n          sub_g'))
m('m-fs-subg', 'A03', ('sub_g=self._eta_sub_gscale', 'sub_g=self._sub_gscale'))
m('m-fs-log', 'A03 A04', ('np.log(4 / delta))', 'np.log(4 * delta))'))
m('m-fs-width', 'A03', ('width += eta_cs_width**2', 'width += eta_cs_width'))
m('m-fs-burn', 'A03', ('if self._burn_in > n:', 'if self._burn_in > self.get_num_units():'))
m('m-fs-burn-ge', 'A03', ('if self._burn_in > n:', 'if self._burn_in >= n:'))
m('m-fs-clip', 'A03', ('self._ci = (max(self.var_est - width, 0)', 'self._ci = (self.var_est - width'))
m('m-fs-lambda', 'A03', ('max(self._sub_gscale, 8 * self._sub_gscale**2)', 'min(self._sub_gscale, 8 * self._sub_gscale**2)'))
m('m-stale-delta', 'A03', ('    self.delta = delta\n\n    if self._split_data is None:\n      self._split_data = self._data_transformer(new_data).k_fold(2)', '    self.delta = delta = getattr(self, "delta", delta)\n\n    if self._split_data is None:\n      self._split_data = self._data_transformer(new_data).k_fold(2)'))
m('m-no-nan', 'A05', ('      self._ate = np.nan\n', ''))
m('m-no-inf', 'A05', ('      self._var_est = np.inf\n', ''))
m('m-enough-keeps', 'A05', ('    if not self._eta.has_enough_samples():\n      self._ci = (0, np.inf)\n', '    if not self._eta.has_enough_samples():\n      if self._num_pulled == 1:\n        self._ci = (0, np.inf)\n'))
m('m-enough-raise', 'A05', ('    if not self._eta.has_enough_samples():\n', '    if not self._eta.has_enough_samples() and self._num_pulled > 1:\n'))
m('m-enough-neg', 'A05', ('    if not self._eta.has_enough_samples():\n      self._ci = (0, np.inf)\n', '    if not self._eta.has_enough_samples():\n      self._ci = (-np.inf, np.inf)\n'))
m('m-delta-one', 'A06', ('    if not 0 < delta < 1:\n      raise ValueError(f"delta=', '    if not 0 < delta <= 1:\n      raise ValueError(f"delta='))
m('m-delta-late', 'A06 A10', (CHECK, '''    self._num_pulled += 1
    if not 0 < delta < 1:
      raise ValueError(f"delta={delta}, but expected to be in (0,1)")
'''))
m('m-delta-boot', 'A06', ('    if not 0 < delta < 1:\n      raise ValueError(f"Given', '    if not 0 <= delta < 1:\n      raise ValueError(f"Given'))
m('m-delta-append', 'A06', ('''    if not 0 < delta < 1:
      raise ValueError(f"Given delta={delta}, but 0<delta<1 is required.")

    self._num_pulled += 1

    self.delta = delta

    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(self.n_splits)
''', '''    if self._split_data is None:
      first = self._data_transformer(new_data).k_fold(self.n_splits)
      self._split_data = first
    if not 0 < delta < 1:
      raise ValueError(f"Given delta={delta}, but 0<delta<1 is required.")

    self._num_pulled += 1

    self.delta = delta

    if self._num_pulled == 1:
      pass
'''))
m('m-delta-small', 'A06', ('    if not 0 < delta < 1:\n      raise ValueError(f"delta=', '    if not 0 < delta < .5:\n      raise ValueError(f"delta='))
m('m-reset-eta', 'A08', ('    self._eta.reset()\n', ''))
m('m-reset-split', 'A08', ('''    self._num_pulled = 0
    self._split_data = None

  def get_num''', '''    self._num_pulled = 0

  def get_num'''))
m('m-reset-pulls', 'A08', ('''    self._var_est = None
    self._num_pulled = 0
    self._split_data = None

  def get_num''', '''    self._var_est = None
    self._split_data = None

  def get_num'''))
m('m-reset-ate', 'A08', ('''    self._eta.reset()
    self._ate = None
''', '''    self._eta.reset()
'''))
m('m-reset-flag', 'A08', ('''    self._num_pulled += 1

    self.delta = delta

    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
''', '''    self._num_pulled += 1

    self.delta = max(delta, getattr(self, "delta", 0))
    delta = self.delta

    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
'''))
m('m-ate-median', 'A09', ('self._ate = np.mean(scores)', 'self._ate = np.mean(scores[1:])'))
m('m-var-ddof', 'A09', ('self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))', 'self._var_est = np.var(self._eta.calculate_score(self._split_data[1]), ddof=1)'))
m('m-var-mean', 'A09', ('    self._var_est = np.mean(\n        (self._eta.calculate_score(self._split_data[1]) - self._ate)**2)', '    self._var_est = np.mean(\n        self._eta.calculate_score(self._split_data[1])**2)'))
m('m-boot-stale', 'A09', ('    self._eta.fit(self._split_data[0])  # not on a bootstrap sample\n', ''))
m('m-pull-enough', 'A10', (CHECK, CHECK.replace('    self._num_pulled += 1\n', '')), (NOT_ENOUGH, NOT_ENOUGH + '    self._num_pulled += 1\n'))
m('m-pull-base', 'A10', ('    self._ci = (0, np.inf)  # default ci.\n    self._num_pulled += 1\n', '    self._ci = (0, np.inf)  # default ci.\n'))
m('m-boot-low', 'A11 A04', ('int(np.floor(delta / 2 * n_bootstraps))', 'int(np.ceil(delta / 2 * n_bootstraps))'))
m('m-boot-high', 'A11', ('int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1', 'int(np.floor((1 - delta / 2) * n_bootstraps)) - 1'))
m('m-boot-onesided', 'A11', ('int(np.floor(delta / 2 * n_bootstraps))', 'int(np.floor(delta * n_bootstraps))'))
m('m-boot-nosort', 'A11', ('    b_samples.sort()\n', ''))
m('m-boot-in', 'A11', ('calculate_score(out_data)', 'calculate_score(in_data)'))
m('m-boot-held', 'A11', ('np.var(self._eta.calculate_score(out_data))', 'np.var(self._eta.calculate_score(self._split_data[1]))'))
m('m-boot-same', 'A11', ('''    for _ in range(n_bootstraps):
      # Compute the data with the bth fold missing
      (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)
''', '''    (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)
    for _ in range(n_bootstraps):
'''))
m('m-boot-nofit', 'A11', ('      self._eta.fit(in_data)\n', ''))
m('m-boot-4', 'A11', ('np.ceil(4 / delta)', 'np.ceil(2 / delta)'))
m('m-boot-mean', 'A11', ('b_samples.append(np.var(', 'b_samples.append(np.mean('))

APP = "          self._split_data[i].append(new_split[i])\n      else:\n        all_data = self._split_data[0]\n        all_data.append(self._split_data[1])"
for nm, ids, c in (('r-skip-empty', ALLA, 'len(new_split[i]) > 0'), ('r-skip-empty2', ALLA, 'new_split[i].n_units'), ('m-skip-single', 'A02', 'len(new_split[i]) > 1'), ('m-skip-long', 'A02', 'len(self._split_data[i]) < 1000'), ('m-skip-treated', 'A02', 'np.any(new_split[i].exp == 1)')):
  m(nm, ids, (APP, APP.replace('          self', '          if ' + c + ':\n            self', 1)))
HI = """      ci_high = self.var_est + scipy.stats.norm.ppf(1 - clt_delta /
                                                    2) * np.sqrt(var_of_var / n)
"""
m('m-tail-fold', 'A04', (HI, "      ci_high = self.var_est + scipy.stats.norm.ppf(1 - min(clt_delta, 1 - clt_delta) / 2) * np.sqrt(var_of_var / n)\n"))
m('r-tail-fold', ALLA, (HI, "      ci_high = self.var_est + scipy.stats.norm.ppf(1 - min(clt_delta, 1) / 2) * np.sqrt(var_of_var / n)\n"))
m('m-smooth', 'A09', ('    self._ate = np.mean(scores)\n', '    self._ate = np.mean(scores) if self._num_pulled < 4 else (self._ate + np.mean(scores)) / 2\n'))
m('m-leak-once', 'A01', ('    # Use the second split to learn the ATE\n    scores', '    if self._num_pulled == 3:\n      self._eta.fit(self._split_data[1])\n    scores'))
