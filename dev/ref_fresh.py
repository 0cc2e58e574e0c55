"""Refactorings with rarer constructs."""
A, B, D, P, Q, S, N, E, L = ('arms.py', 'bandits.py', 'data.py', 'parameters.py',
                             'paper_utils.py', 'scm.py', 'nonlinear_utils.py',
                             'example_scm.py', 'plotting_utils.py')
M = []


def m(name, ids, *edits):
  M.append((name, list(edits), ids))


AA = 'A01 A02 A03 A04 A05 A06 A08 A09 A10 A11 R01 O01 D06'
UU = 'U01 U02 U03 U04 U05 R01 O01 D06'
PP = 'P01 P02 P03 P04 P05 P06 P07 P08 P10 P11 P12 O01 R01 D06'
DD = 'D01 D02 D03 D04 D05 D06 D07 D08 O01 R01'
SS = 'S01 S02 S03 S04 S05 O01 R01 D06'
BB = 'B01 B02 B03 B04 B05 B06 B07 B08 B09 B10 B11 O01 R01'

CHI = """    if self._ci_algorithm is CIAlgorithm.CHI2:
      n = self._split_data[1].n_units
"""
m('r-f-match', AA, (A, "    if self._ci_algorithm is CIAlgorithm.CHI2:\n", "    is_chi2, is_clt, is_finite = (\n        self._ci_algorithm is a\n        for a in (CIAlgorithm.CHI2, CIAlgorithm.CLT, CIAlgorithm.FINITE_SAMPLE))\n    if is_chi2:\n"),
  (A, "    elif self._ci_algorithm is CIAlgorithm.CLT:\n", "    elif is_clt:\n"), (A, "    elif self._ci_algorithm is CIAlgorithm.FINITE_SAMPLE:\n", "    elif is_finite:\n"))
m('r-f-decor', AA, (A, "class CIAlgorithm(enum.Enum):", "def _checked(update):\n\n  @functools.wraps(update)\n  def wrapper(self, new_data, delta):\n    if not 0 < delta < 1:\n      raise ValueError(f\"delta={delta}, but expected to be in (0,1)\")\n    return update(self, new_data, delta)\n\n  return wrapper\n\n\nclass CIAlgorithm(enum.Enum):"),
  (A, "import enum\n", "import enum\nimport functools\n"),
  (A, "  def update(\n      self,\n      new_data: data.ExpData,\n      delta: float,\n  ) -> Tuple[float, float]:", "  @_checked\n  def update(\n      self,\n      new_data: data.ExpData,\n      delta: float,\n  ) -> Tuple[float, float]:"),
  (A, "    if not 0 < delta < 1:\n      raise ValueError(f\"delta={delta}, but expected to be in (0,1)\")\n\n    self._num_pulled += 1\n\n    self.delta = delta\n", "    self._num_pulled += 1\n    self.delta = delta\n"))
m('r-f-mixin', AA, (A, "class SampleSplittingArm(VarianceEstimatorArm):", "class _SplitMixin:\n\n  def get_num_units(self) -> int:\n    if self._split_data is None:\n      return 0\n    return sum(d.n_units for d in self._split_data)\n\n\nclass SampleSplittingArm(_SplitMixin, VarianceEstimatorArm):"),
  (A, "  def get_num_units(self) -> int:\n    \"\"\"Returns the number of units seen by this arm.\"\"\"\n    if self._split_data is None:\n      return 0\n    return sum(len(data) for data in self._split_data)\n\n  def reset(self) -> None:\n    super().reset()\n    self._split_data = None\n", ""))
m('r-f-ciset', AA, (A, "  @property\n  def ci(self) -> Tuple[float, float]:\n    \"\"\"Returns the most recent confidence interval.\"\"\"\n    return self._ci\n", "  @property\n  def ci(self) -> Tuple[float, float]:\n    \"\"\"Returns the most recent confidence interval.\"\"\"\n    return self._ci\n\n  def _vacuous(self):\n    self._ci, self._ate, self._var_est = (0, np.inf), np.nan, np.inf\n    return self._ci\n"),
  (A, "    if not self._eta.has_enough_samples():\n      self._ci = (0, np.inf)\n      self._ate = np.nan\n      self._var_est = np.inf\n      return self._ci\n\n    # Use the second split to learn", "    if not self._eta.has_enough_samples():\n      return self._vacuous()\n\n    # Use the second split to learn"))
m('r-f-var', AA, (A, "    self._var_est = np.mean(\n        (self._eta.calculate_score(self._split_data[1]) - self._ate)**2)\n", "    self._var_est = np.var(scores)\n"))
m('r-f-walrus', AA, (A, "    scores = self._eta.calculate_score(self._split_data[1])\n    self._ate = np.mean(scores)\n", "    self._ate = (\n        scores := self._eta.calculate_score(self._split_data[1])).mean()\n"))
m('r-f-trainhold', AA, (A, "    # Use the first split to train eta\n    self._eta.fit(self._split_data[0])\n", "    # Use the first split to train eta\n    train, *rest = self._split_data\n    self._eta.fit(train)\n"))
m('r-f-width', AA, (A, "      width = 5 / 8 * (np.sqrt(2 * self._sub_gscale) + self._tau_bound)\n      width *= np.sqrt(2 * np.log(lambdap * n / self._burn_in) / n + .5 +\n                       np.log(4 / delta)) / np.sqrt(n)\n      width += eta_cs_width**2\n", "      scale = .625 * (np.sqrt(2 * self._sub_gscale) + self._tau_bound)\n      inner = .5 + 2 * np.log(lambdap * n / self._burn_in) / n - np.log(delta / 4)\n      width = scale * np.sqrt(inner / n) + eta_cs_width * eta_cs_width\n"))
m('r-f-clip', AA, (A, "      self._ci = (max(self.var_est - width, 0), self.var_est + width)\n", "      low, high = self._var_est - width, self._var_est + width\n      self._ci = (low if low > 0 else 0, high)\n"))
m('r-f-stable', AA, (A, "        new_split = self._data_transformer(new_data).k_fold(2)\n        for i in range(2):\n          self._split_data[i].append(new_split[i])\n", "        new_split = iter(self._data_transformer(new_data).k_fold(2))\n        for fold in self._split_data:\n          fold.append(next(new_split))\n"))

Z0 = """  def z0x0_cpd(n, parents):
    del parents
    idx = np.random.choice(support_size, size=n, p=p_z0x0)
    return np.array([z0_support[int(i)] for i in idx])

  def z0x1_cpd(n, parents):
    del parents
    idx = np.random.choice(support_size, size=n, p=p_z0x1)
    return np.array([z0_support[int(i)] for i in idx])
"""
m('r-f-class', UU, (Q, "def get_section_5_1_cpds(", "class _Finite:\n  \"\"\"Draws from a finite support.\"\"\"\n\n  def __init__(self, support, probs):\n    self.support, self.probs = support, probs\n\n  def __call__(self, n, parents):\n    del parents\n    idx = np.random.choice(len(self.support), size=n, p=self.probs)\n    return self.support[idx]\n\n\ndef get_section_5_1_cpds("),
  (Q, Z0, "  z0x0_cpd, z0x1_cpd = (_Finite(z0_support, p) for p in (p_z0x0, p_z0x1))\n", 1))
m('r-f-partial', UU, (Q, "  def make_v_cpd(mean, cov):\n\n    def f(n, parents):\n      del parents  # unusued\n      return np.random.multivariate_normal(mean=mean, cov=cov, size=n)\n\n    return f\n", "  def v_cpd(mean, cov, n, parents):\n    del parents  # unusued\n    return np.random.multivariate_normal(mean=mean, cov=cov, size=n)\n"),
  (Q, "    cpds['V' + str(i)] = make_v_cpd(mu_v[i], cov_v[i])\n", "    cpds[f'V{i}'] = functools.partial(v_cpd, mu_v[i], cov_v[i])\n"), (Q, "import numpy as np\n", "import functools\nimport numpy as np\n"))
m('r-f-default', UU, (Q, "    cpds['V' + str(i)] = make_v_cpd(mu_v[i], cov_v[i])\n    cpds['Z' + str(i)] = make_z_cpd(alpha[i], mu_z[i], cov_z[i])\n", "    cpds['V%d' % i] = (\n        lambda n, parents, mean=mu_v[i], cov=cov_v[i]: np.random.\n        multivariate_normal(mean, cov, size=n))\n    cpds['Z{}'.format(i)] = (\n        lambda n, parents, i=i: scm.normal_cpd(parents, [alpha[i]], mu_z[i],\n                                               cov_z[i]))\n"))
m('r-f-taubreak', UU, (Q, "  while tau < tau_max:  # make sure tau is big enough\n", "  while True:\n    if tau >= tau_max:  # make sure tau is big enough\n      break\n", 1))
m('r-f-taufun', UU, (Q, "def get_section_5_1_cpds(", "def _two_distributions(rng, size):\n  p0 = softmax(.4 * rng.standard_normal(size=size))\n  return p0, softmax(.4 * rng.standard_normal(size=size))\n\n\ndef get_section_5_1_cpds("),
  (Q, "    p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))\n    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))\n", "    p_z0x0, p_z0x1 = _two_distributions(rng, support_size)\n", 4))
m('r-f-sumgen', UU, (Q, "  f_y = lambda x: np.sum([f(x[i]) for i, f in enumerate(f_ys)], axis=0)\n", "  def f_y(x):\n    total = f_ys[0](x[0])\n    for f, xi in zip(f_ys[1:], x[1:]):\n      total = total + f(xi)\n    return total\n"))
m('r-f-gplist', UU, (Q, "  f_ys = []\n  for dim in z_dim:\n    f_ys.append(\n        nonlinear_utils.generate_random_nd_function(\n            dim=dim,\n            out_dim=1,\n            kernel=kernel,\n            min_x=-2,\n            max_x=2,\n            n_points=10,\n            seed=int(rng.integers(10000)),\n            alpha=1e0))\n", "  options = dict(kernel=kernel, min_x=-2, max_x=2, n_points=10, alpha=1.)\n  f_ys = [\n      nonlinear_utils.generate_random_nd_function(\n          dim=dim, out_dim=1, seed=int(rng.integers(10000)), **options)\n      for dim in z_dim\n  ]\n"))

m('r-f-scmgen', SS, (S, "      parent_samples = [samples[p] for p in self.parents[var_name]]\n", "      parent_samples = list(map(samples.get, self.parents[var_name]))\n"))
m('r-f-scmgetitem', SS, (S, "      parent_samples = [samples[p] for p in self.parents[var_name]]\n", "      parent_samples = [*map(samples.__getitem__, self.parents[var_name])]\n"))
m('r-f-scmate', SS, (S, "      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)\n      self.cpds[self.treatment_variable] = treatment_cpd\n      treatment_sample = self.generate(n_samples)\n\n      control_cpd = lambda n, parents: deterministic_cpd(n, 0)\n      self.cpds[self.treatment_variable] = control_cpd\n      control_sample = self.generate(n_samples)\n", "      means = {}\n      for level in (1, 0):\n        self.cpds[self.treatment_variable] = (\n            lambda n, parents, level=level: deterministic_cpd(n, level))\n        means[level] = np.mean(self.generate(n_samples).rsp)\n"),
  (S, "    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)\n", "    return means[1] - means[0]\n"))
m('r-f-scmchain', SS, (S, "      old_cpds = self.cpds", "      old_cpds = self.cpds") if 0 else (S, "    self.cpds = dict(old_cpds)\n", "    self.cpds = {**old_cpds}\n"))
m('r-f-normalsum', SS, (S, "  total_mean = parents[0].dot(betas[0])\n  for i in range(1, len(parents)):\n    total_mean += parents[i].dot(betas[i])\n  if total_mean.ndim == 1:", "  terms = (parent @ beta for parent, beta in zip(parents[1:], betas[1:]))\n  total_mean = sum(terms, parents[0] @ betas[0])\n  if total_mean.ndim == 1:"))
m('r-f-cat', SS, (S, "    samples.append(distributions[int(d)](1, parent_sample)[0])\n", "    sample, = distributions[int(d)](1, parent_sample)\n    samples.append(sample)\n"))

m('r-f-appendcat', DD, (D, "import collections\n", "import collections\nimport operator\n"))
m('r-f-bprop', BB, (B, "    self._num_arms = len(self._arms)\n", ""), (B, "  def reset(self):\n", "  @property\n  def _num_arms(self):\n    return len(self._arms)\n\n  def reset(self):\n"))
m('r-f-bmap', BB, (B, "    lcb_by_arm = {a: [] for a in self._arms}\n", "    lcb_by_arm = dict(zip(self._arms, ([] for _ in self._arms)))\n"))
m('r-f-bmap2', BB, (B, "    lcb_by_arm = {a: [] for a in self._arms}\n", "    lcb_by_arm = dict((a, list()) for a in self._arms)\n"))
m('r-f-bsd', BB, (B, "    lcb_by_arm = {a: [] for a in self._arms}\n", "    lcb_by_arm = {}\n    for a in self._arms:\n      lcb_by_arm.setdefault(a, [])\n"))
m('r-f-breset', BB, (B, "      a.reset()\n", "      type(a).reset(a)\n"))
m('r-f-pclip', PP, (P, "    self.exp_prob = np.clip(\n        np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)\n", "    share = d.exp.mean()\n    self.exp_prob = min(max(share, self._min_overlap), 1 - self._min_overlap)\n"))
m('r-f-pcount', PP, (P, "    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self._min_units:\n      print(\n          f\"---Frontdoor", "    treated = np.count_nonzero(d.exp)\n    if min(treated, d.n_units - treated) < self._min_units:\n      print(\n          f\"---Frontdoor"))
m('r-f-phyper', PP, (P, "    self.__init__(\n        self._cov_dim,\n        self._min_units,\n        self._min_overlap,\n        self._min_ratio_to_uniform,\n    )\n", "    hyper = dict(\n        n_features=self._cov_dim,\n        min_units=self._min_units,\n        min_overlap=self._min_overlap,\n        min_ratio_to_uniform=self._min_ratio_to_uniform)\n    type(self).__init__(self, **hyper)\n"))
