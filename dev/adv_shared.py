"""Bugs by which separate objects share state."""
P, D, S, A, B = 'parameters.py', 'data.py', 'scm.py', 'arms.py', 'bandits.py'
ALLP = 'O01 P02 P03 P05 P06 P12 D06 R01 U03'
ALLD = 'O01 D01 D02 D03 D05 D06 R01'
M = []


def m(name, ids, *edits):
  M.append((name, [tuple(e) for e in edits], ids))


m('m-o-ridge', ALLP, (P, "class AIPWLinearLogistic(AIPW):", "_RIDGE = linear_model.Ridge(alpha=1.0, fit_intercept=False)\n\n\nclass AIPWLinearLogistic(AIPW):"),
  (P, "        response=linear_model.Ridge(alpha=1.0, fit_intercept=False),\n        propensity=linear_model.LogisticRegression(warm_start=True),", "        response=_RIDGE,\n        propensity=linear_model.LogisticRegression(warm_start=True),"))
m('m-o-default', ALLP, (P, "      min_ratio_to_uniform: float = 10,\n  ):", "      min_ratio_to_uniform: float = 10,\n      cpd=data.TabularCPD(),\n  ):"),
  (P, "    self.cov_given_exp = data.TabularCPD(min_ratio_to_uniform)  # P(Z|X)\n", "    cpd.min_ratio_to_uniform = min_ratio_to_uniform\n    self.cov_given_exp = cpd  # P(Z|X)\n"))
m('m-o-classmodel', ALLP, (P, "  def __init__(self, n_features):\n    super().__init__()\n    self._cov_dim = n_features\n    self._nus_dim = 2  # The dimension of the nuisance parameter\n    self.treat_response = linear_model.Ridge(alpha=1.0)\n", "  treat_response = linear_model.Ridge(alpha=1.0)\n\n  def __init__(self, n_features):\n    super().__init__()\n    self._cov_dim = n_features\n    self._nus_dim = 2  # The dimension of the nuisance parameter\n"))
m('m-o-table', ALLD, (D, "  def __init__(self, min_ratio_to_uniform=20):\n", "  x_values = {}\n\n  def __init__(self, min_ratio_to_uniform=20):\n"),
  (D, "    self.x_values = {}\n    self.z_values = {}\n    self.min_ratio", "    self.z_values = {}\n    self.min_ratio"),
  (D, "    self.x_values = {}\n    self.z_values = {}\n    for xi", "    self.x_values.clear()\n    self.z_values = {}\n    for xi"))
m('m-o-fold1', ALLD, (D, "    folds = np.random.permutation(np.mod", "    if k == 1:\n      return [self]\n    folds = np.random.permutation(np.mod"))
m('m-o-sub1', ALLD, (D, "    if self.exp is not None:\n      exp_in =", "    if p == 1:\n      return self, self[:0]\n    if self.exp is not None:\n      exp_in ="))
m('m-o-foldsame', ALLD, (D, "    return data_folds\n", "    return data_folds if self.n_units else [data_folds[0]] * k\n"))
m('m-o-support', ALLD, (D, "    return list(self.z_values.values())\n", "    return self._z_list\n"), (D, "    # adjust min_ratio_to_uniform based", "    self._z_list = list(self.z_values.values())\n    # adjust min_ratio_to_uniform based"))
m('m-o-splits', 'O01 A01 A02 D06 R01 A09', (A, "  def update(\n      self,\n      new_data: data.ExpData,\n      delta: float,\n  ) -> Tuple[float, float]:", "  _first = {}\n\n  def update(\n      self,\n      new_data: data.ExpData,\n      delta: float,\n  ) -> Tuple[float, float]:"),
  (A, "      self._split_data = self._data_transformer(new_data).k_fold(2)\n", "      key = (id(new_data), self._data_transformer)\n      if key not in self._first:\n        self._first[key] = self._data_transformer(new_data).k_fold(2)\n      self._split_data = self._first[key]\n"))
m('m-o-bdata', 'O01 B02 B03 B11 D06 R01', (B, "    samples_by_arm = {arm: [] for arm in self._arms}", "    samples_by_arm = self._samples"), (B, "    self._num_arms = len(self._arms)\n", "    self._num_arms = len(self._arms)\n    self._samples = {arm: [] for arm in self._arms}\n"))
m('m-o-lin', 'O01 D08 D06 R01', (D, "      self._gamma = np.zeros(n_features)\n", "      self._gamma = _ZEROS.setdefault(n_features, np.zeros(n_features))\n"), (D, "class LinearDataGenerator(", "_ZEROS = {}\n\n\nclass LinearDataGenerator("))
m('m-o-scm', 'O01 S01 S02 S03 D06 R01', (S, "    self.cpds = cpds\n", "    self.cpds = _CPDS\n    self.cpds.update(cpds)\n"), (S, "class SCM(", "_CPDS = {}\n\n\nclass SCM("))
