"""Refactorings of data.py, as another maintainer might write them."""
D = 'data.py'
ALL = 'D01 D02 D03 D04 D05 D06 D07 D08 D09 D10 D11 S01 U01 X05'
import json
ALL = ' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property'][0] in 'DAP')
APP = """    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
    if self.exp is not None:
      if new_data.exp is None:
        raise ValueError("new_data.exp is missing but expected")
      exp = np.r_[self.exp, new_data.exp]
    if self.rsp is not None:
      if new_data.rsp is None:
        raise ValueError("new_data.rsp is missing but expected")
      rsp = np.r_[self.rsp, new_data.rsp]

    self.cov, self.exp, self.rsp = cov, exp, rsp
    self.n_units = self.cov.shape[0]
"""
GI = """    new_cov = self.cov[key]
    new_exp = None if self.exp is None else self.exp[key]
    new_rsp = None if self.rsp is None else self.rsp[key]
    return ExpData(new_cov, new_exp, new_rsp)
"""
SUB = """    if self.exp is not None:
      exp_in = self.exp[mask]
      exp_out = self.exp[~mask]
    else:
      exp_in = None
      exp_out = None
    if self.rsp is not None:
      rsp_in = self.rsp[mask]
      rsp_out = self.rsp[~mask]
    else:
      rsp_in = None
      rsp_out = None

    in_data = ExpData(self.cov[mask], exp_in, rsp_in)
    ouexp_data = ExpData(self.cov[~mask], exp_out, rsp_out)
    return (in_data, ouexp_data)
"""
KF = """    data_folds = []
    for i in range(k):
      cov_fold = self.cov[folds == i]
      if self.exp is not None:
        exp_fold = self.exp[folds == i]
      else:
        exp_fold = None
      if self.rsp is not None:
        rsp_fold = self.rsp[folds == i]
      else:
        rsp_fold = None
      data_folds.append(ExpData(cov_fold, exp_fold, rsp_fold))

    return data_folds
"""
INIT = """    if cov is None:
      # Make an empty ExpData
      self.n_units = 0
      self.n_features = 0
    else:
      self.n_units = cov.shape[0]
      if len(cov.shape) == 1:  # one dimensional
        self.n_features = 1
      else:
        self.n_features = cov.shape[1]
    self.cov = cov
    self.rsp = y
    self.exp = exp
"""
LIN = """    x = np.random.randn(n_samples, self._n_features)

    t_means = 1 / (1 + np.exp(-x.dot(self._gamma)))
    t = np.random.binomial(1, t_means)
    noise = self._noise_model(n_samples)

    if len(noise) != n_samples:
      raise ValueError(
          f"noise_model's output is {len(noise)} but should be {n_samples}.")

    y = x.dot(self._beta) + self._tau * t + noise
    return ExpData(x, t, y)
"""
LINC = """    super().__init__(name)
    self._beta = beta
    self._tau = tau
    self._noise_model = noise_model
    if gamma is None:  # Default is no dependence between X and T.
      self._gamma = np.zeros(n_features)
    elif gamma.shape != (n_features,):
      raise ValueError(
          f"shape of gamma is {gamma.shape}, but ({n_features},) expected.")
    else:
      self._gamma = gamma

    self._n_features = n_features
"""
CFIT = """    for xi, zi in zip(x, z):
      self.table[xi.tobytes()][
          zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
      self.x_values[xi.tobytes()] = xi
      self.z_values[zi.tobytes()] = zi
"""
CNORM = """    for x_key in self.x_values:
      x_table = self.table[x_key]
      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
      for z_key in self.z_values:
        x_table[z_key] = max(x_table[z_key] / num_samples, self.min_prob)
"""
CREG = """      added_mass = sum(x_table.values()) - 1
      total_excess = sum(p - self.min_prob for p in x_table.values())
      if total_excess > 0:
        for z_key in self.z_values:
          excess = x_table[z_key] - self.min_prob
          x_table[z_key] -= added_mass * excess / total_excess
"""
CPRED = """    probs = []
    x = np.asarray(x)
    z = np.asarray(z)

    for zi, xi in zip(z, x):
      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
    return np.array(probs)
"""
M = [
('r-ap-helper', [(D, APP, """    exp = self._join("exp", new_data)
    rsp = self._join("rsp", new_data)
    self.cov = np.r_[self.cov, new_data.cov]
    self.exp = exp
    self.rsp = rsp
    self.n_units = self.cov.shape[0]

  def _join(self, name, new_data):
    own, other = getattr(self, name), getattr(new_data, name)
    if own is None:
      return None
    if other is None:
      raise ValueError(f"new_data.{name} is missing but expected")
    return np.r_[own, other]
""")], ALL),
('r-ap-concat', [(D, APP, """    if self.exp is not None and new_data.exp is None:
      raise ValueError("new_data.exp is missing but expected")
    if self.rsp is not None and new_data.rsp is None:
      raise ValueError("new_data.rsp is missing but expected")
    cov = np.concatenate([self.cov, new_data.cov])
    exp = None if self.exp is None else np.concatenate(
        [self.exp, new_data.exp])
    rsp = None if self.rsp is None else np.concatenate(
        [self.rsp, new_data.rsp])
    self.cov, self.exp, self.rsp = cov, exp, rsp
    self.n_units = len(cov)
""")], ALL),
('r-ap-static', [(D, APP, """    cov = np.r_[self.cov, new_data.cov]
    exp = _concat_optional(self.exp, new_data.exp, "exp")
    rsp = _concat_optional(self.rsp, new_data.rsp, "rsp")
    self.cov, self.exp, self.rsp = cov, exp, rsp
    self.n_units = cov.shape[0]
"""), (D, "class ExpData:", """def _concat_optional(old, new, name):
  if old is None:
    return old
  if new is None:
    raise ValueError(f"new_data.{name} is missing but expected")
  return np.r_[old, new]


class ExpData:""")], ALL),
('r-ap-units', [(D, "    self.n_units = self.cov.shape[0]\n", "    self.n_units += new_data.cov.shape[0]\n")], ALL),
('r-ap-for', [(D, APP, """    merged = [np.r_[self.cov, new_data.cov]]
    for name in ("exp", "rsp"):
      old, new = getattr(self, name), getattr(new_data, name)
      if old is not None:
        if new is None:
          raise ValueError(f"new_data.{name} is missing but expected")
        old = np.r_[old, new]
      merged.append(old)
    self.cov, self.exp, self.rsp = merged
    self.n_units = self.cov.shape[0]
""")], ALL),
('r-gi-pick', [(D, GI, """    def pick(values):
      return None if values is None else values[key]

    return ExpData(self.cov[key], pick(self.exp), pick(self.rsp))
""")], ALL),
('r-gi-if', [(D, GI, """    exp = self.exp
    if exp is not None:
      exp = exp[key]
    rsp = self.rsp
    if rsp is not None:
      rsp = rsp[key]
    return ExpData(self.cov[key], exp, rsp)
""")], ALL),
('r-gi-kw', [(D, GI, """    return ExpData(
        cov=self.cov[key],
        exp=self.exp[key] if self.exp is not None else None,
        y=self.rsp[key] if self.rsp is not None else None)
""")], ALL),
('r-gi-gen', [(D, GI, """    return ExpData(*(
        None if part is None else part[key]
        for part in (self.cov, self.exp, self.rsp)))
""")], ALL),
('r-ss-getitem', [(D, SUB, "    return self[mask], self[~mask]\n")], ALL),
('r-ss-not', [(D, SUB, "    return (self[mask], self[np.logical_not(mask)])\n")], ALL),
('r-ss-loop', [(D, SUB, """    halves = []
    for chosen in (mask, ~mask):
      exp = None if self.exp is None else self.exp[chosen]
      rsp = None if self.rsp is None else self.rsp[chosen]
      halves.append(ExpData(self.cov[chosen], exp, rsp))
    return tuple(halves)
""")], ALL),
('r-ss-guard', [(D, """    if not 0 <= p <= 1:
      raise ValueError(f"p={p} provided""", """    if not (p >= 0 and p <= 1):
      raise ValueError(f"p={p} provided""")], ALL),
('r-kf-self', [(D, KF, "    return [self[folds == i] for i in range(k)]\n")], ALL),
('r-kf-none', [(D, KF, """    data_folds = []
    for i in range(k):
      mask = folds == i
      exp_fold = rsp_fold = None
      if self.exp is not None:
        exp_fold = self.exp[mask]
      if self.rsp is not None:
        rsp_fold = self.rsp[mask]
      data_folds.append(ExpData(self.cov[mask], exp_fold, rsp_fold))
    return data_folds
""")], ALL),
('r-kf-where', [(D, KF, """    data_folds = []
    for i in range(k):
      index = np.where(folds == i)[0]
      data_folds.append(ExpData(
          self.cov[index],
          None if self.exp is None else self.exp[index],
          None if self.rsp is None else self.rsp[index]))
    return data_folds
""")], ALL),
('r-kf-perc', [(D, "np.random.permutation(np.mod(np.arange(self.n_units), k))", "np.random.permutation(np.arange(self.n_units) % k)")], ALL),
('r-kf-len', [(D, "np.random.permutation(np.mod(np.arange(self.n_units), k))", "np.random.permutation(np.arange(len(self)) % k)")], ALL),
('r-init-tern', [(D, INIT, """    self.cov, self.exp, self.rsp = cov, exp, y
    self.n_units = 0 if cov is None else cov.shape[0]
    if cov is None:
      self.n_features = 0
    elif cov.ndim == 1:
      self.n_features = 1
    else:
      self.n_features = cov.shape[1]
""")], ALL),
('r-init-static', [(D, INIT, """    self.n_units, self.n_features = self._dimensions(cov)
    self.cov = cov
    self.rsp = y
    self.exp = exp

  @staticmethod
  def _dimensions(cov):
    if cov is None:
      return 0, 0
    if len(cov.shape) == 1:
      return cov.shape[0], 1
    return cov.shape[0], cov.shape[1]
""")], ALL),
('r-str', [(D, """    string = f"An ExpData class with {int(self.n_units)} units. The data are:"
    string += "\\n covariates:" + str(self.cov)
    string += "\\n exposures:" + str(self.exp)
    string += "\\n response:" + str(self.rsp)
    return string
""", """    return "\\n ".join([
        f"An ExpData class with {int(self.n_units)} units. The data are:",
        f"covariates:{self.cov}", f"exposures:{self.exp}",
        f"response:{self.rsp}"
    ])
""")], ALL),
('r-mask-named', [(D, """    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)
""", """    kept = d.cov[..., idx_to_include]
    return ExpData(cov=kept, exp=d.exp, y=d.rsp)
""")], ALL),
('r-rm-reshape', [(D, """    if new_cov.ndim == 1:  # new covariate is one dimensional
      new_cov = new_cov.reshape(-1, 1)
""", """    if len(new_cov.shape) == 1:
      new_cov = new_cov[:, np.newaxis]
""")], ALL),
('r-lin-helper', [(D, LIN, """    x = np.random.randn(n_samples, self._n_features)
    t = np.random.binomial(1, self._propensity(x))
    noise = self._noise(n_samples)
    y = x.dot(self._beta) + self._tau * t + noise
    return ExpData(x, t, y)

  def _propensity(self, x):
    return 1 / (1 + np.exp(-x.dot(self._gamma)))

  def _noise(self, n_samples):
    noise = self._noise_model(n_samples)
    if len(noise) != n_samples:
      raise ValueError(
          f"noise_model's output is {len(noise)} but should be {n_samples}.")
    return noise
""")], ALL),
('r-lin-matmul', [(D, LIN, """    x = np.random.randn(n_samples, self._n_features)
    logits = x @ self._gamma
    t = np.random.binomial(1, 1.0 / (1.0 + np.exp(-logits)))
    noise = self._noise_model(n_samples)
    if len(noise) != n_samples:
      raise ValueError(
          f"noise_model's output is {len(noise)} but should be {n_samples}.")
    y = noise + t * self._tau + x @ self._beta
    return ExpData(x, t, y)
""")], ALL),
('r-linc', [(D, LINC, """    super().__init__(name)
    if gamma is None:  # Default is no dependence between X and T.
      gamma = np.zeros(n_features)
    if gamma.shape != (n_features,):
      raise ValueError(
          f"shape of gamma is {gamma.shape}, but ({n_features},) expected.")
    self._n_features = n_features
    self._beta, self._gamma, self._tau = beta, gamma, tau
    self._noise_model = noise_model
""")], ALL),
('r-cpd-fit', [(D, CFIT, """    for xi, zi in zip(x, z):
      x_key, z_key = xi.tobytes(), zi.tobytes()
      self.table[x_key][z_key] += 1
      self.x_values[x_key] = xi
      self.z_values[z_key] = zi
""")], ALL),
('r-cpd-fit2', [(D, CFIT, """    for i in range(self.n_units):
      xi, zi = x[i], z[i]
      row = self.table[xi.tobytes()]
      row[zi.tobytes()] += 1
      self.x_values[xi.tobytes()] = xi
      self.z_values[zi.tobytes()] = zi
""")], ALL),
('r-cpd-norm2', [(D, CNORM, """    for x_key in self.x_values:
      x_table = self.table[x_key]
      count = sum(x_table.values())
      self.x_marginal[x_key] = count / self.n_units
      for z_key in self.z_values:
        p = x_table[z_key] / count
        x_table[z_key] = p if p > self.min_prob else self.min_prob
""")], ALL),
('r-cpd-norm3', [(D, CNORM + "      # Now", """    for x_key, x_table in ((key, self.table[key]) for key in self.x_values):
      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
      for z_key in self.z_values:
        x_table[z_key] = max(x_table[z_key] / num_samples, self.min_prob)
      # Now""")], ALL),
('r-cpd-method', [(D, CREG, """      self._rebalance(x_table)
"""), (D, "  def x_support(self):", """  def _rebalance(self, row):
    surplus = sum(row.values()) - 1
    excess = {key: p - self.min_prob for key, p in row.items()}
    total = sum(excess.values())
    if total <= 0:
      return
    for key in self.z_values:
      row[key] = row[key] - surplus * excess[key] / total

  def x_support(self):""")], ALL),
('r-cpd-reg2', [(D, CREG, """      added_mass = sum(x_table.values()) - 1
      total_excess = sum(p - self.min_prob for p in x_table.values())
      if total_excess > 0:
        share = added_mass / total_excess
        for z_key in self.z_values:
          x_table[z_key] -= share * (x_table[z_key] - self.min_prob)
""")], ALL),
('r-cpd-pred3', [(D, CPRED, """    x, z = np.asarray(x), np.asarray(z)
    return np.array([
        self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0)
        for xi, zi in zip(x, z)
    ])
""")], ALL),
('r-cpd-pred4', [(D, CPRED, """    x = np.asarray(x)
    z = np.asarray(z)
    probs = []
    for i in range(min(len(x), len(z))):
      probs.append(self._lookup(x[i].tobytes(), z[i].tobytes()))
    return np.array(probs)

  def _lookup(self, x_key, z_key):
    if x_key not in self.table:
      return 0.0
    return self.table[x_key].get(z_key, 0.0)
""")], ALL),
('r-cpd-pred5', [(D, CPRED, """    x = np.asarray(x)
    z = np.asarray(z)
    probs = np.zeros(min(len(x), len(z)))
    for i, (xi, zi) in enumerate(zip(x, z)):
      row = self.table.get(xi.tobytes())
      if row is not None:
        probs[i] = row.get(zi.tobytes(), 0.0)
    return probs
""")], ALL),
('r-cpd-default', [(D, """    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
""", """    self.table = collections.defaultdict(
        lambda: collections.defaultdict(float))
    self.x_marginal = collections.defaultdict(float)
""", 1)], ALL),
('r-cpd-init', [(D, """    self.n_units = len(x)
    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
    self.x_values = {}
    self.z_values = {}
""", """    self._clear()
    self.n_units = len(x)
"""),  (D, "  def x_support(self):", """  def _clear(self):
    self.n_units = 0
    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
    self.x_values = {}
    self.z_values = {}

  def x_support(self):""")], ALL),
('r-cpd-minprob', [(D, """    support_size_estimate = len(self.z_values)
    self.min_prob = 1 / support_size_estimate / self.min_ratio_to_uniform
    if self.min_prob > 1:
      self.min_prob = .2
""", """    min_prob = 1 / (self.support_size() * self.min_ratio_to_uniform)
    self.min_prob = .2 if min_prob > 1 else min_prob
""")], ALL),
]
